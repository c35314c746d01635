"""Front end: turns /repo's current sources into the JSON dumps the analyses read.

Every source file of a program is compiled (never run) with clang for the
MinGW target (or, for the Unix adapter, for the host with stub Windows/Cygwin
headers), linked at bitcode level, put through mem2reg and dumped by irdump.
Results are cached under a build directory by the hash of everything that went
into them, so that a run always reflects the working tree.
"""
import hashlib, json, os, subprocess, sys, tempfile, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def _tool(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    raise BuildError('tool missing: %s' % (names,))


def file_hash(h, path):
    with open(path, 'rb') as f:
        h.update(path.encode() + b'\0')
        h.update(f.read())
        h.update(b'\0')


def tree_files(sub):
    out = []
    for d, dn, fn in os.walk(os.path.join(REPO, 'src', sub)):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(('.cc', '.h', '.c', '.cpp', '.hpp')):
                out.append(os.path.join(d, f))
    return out


class Lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def irdump():
    src = os.path.join(HERE, 'irdump.cpp')
    h = hashlib.sha256()
    file_hash(h, src)
    exe = os.path.join(BUILD, 'irdump-' + h.hexdigest()[:16])
    with Lock(os.path.join(BUILD, 'irdump.lock')):
        if not os.path.exists(exe):
            tmp = exe + '.tmp%d' % os.getpid()
            sh(['g++', '-O1', '-std=c++17', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include',
                '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
                '-D__STDC_LIMIT_MACROS', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
            os.rename(tmp, exe)
    return exe


def mingw_flags():
    gcc = '/usr/lib/gcc/x86_64-w64-mingw32/13-posix/include/c++'
    return ['--target=x86_64-w64-windows-gnu', '-nostdinc++',
            '-isystem', gcc, '-isystem', gcc + '/x86_64-w64-mingw32', '-isystem', gcc + '/backward',
            '-isystem', '/usr/x86_64-w64-mingw32/include',
            '-std=c++11', '-DUNICODE', '-D_UNICODE', '-D_WIN32_WINNT=0x0501',
            '-I', os.path.join(BUILD, 'gen'), '-I', os.path.join(REPO, 'src/include'),
            '-include', os.path.join(REPO, 'src/shared/PrecompiledHeader.h')]


COMMON = ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g', '-w',
          '-flto', '-fwhole-program-vtables', '-fvisibility=hidden', '-c']


def _objects_from_mk(sub):
    """The program's object list, read from its makefile fragment."""
    mk = os.path.join(REPO, 'src', sub, 'subdir.mk')
    txt = open(mk).read().replace('\\\n', ' ')
    srcs = []
    import re
    for m in re.finditer(r'^\w+_OBJECTS\s*=\s*(.*)$', txt, re.M):
        for o in m.group(1).split():
            mm = re.match(r'build/[\w-]+/(.*)\.o$', o)
            if mm:
                srcs.append('src/' + mm.group(1) + '.cc')
    if not srcs:
        raise BuildError('no objects listed in ' + mk)
    return srcs


PROGRAMS = {
    'agent': dict(sub='agent', defs=['-DWINPTY_AGENT_ASSERT'], target='mingw', dirs=['agent', 'shared', 'include']),
    'agent-pipe': dict(sub='agent', defs=['-DWINPTY_AGENT_ASSERT'], target='mingw', dirs=['agent', 'shared', 'include'], driver='pipe.cc'),
    'agent-life': dict(sub='agent', defs=['-DWINPTY_AGENT_ASSERT'], target='mingw', dirs=['agent', 'shared', 'include'], driver='agent.cc'),
    'agent-conin': dict(sub='agent', defs=['-DWINPTY_AGENT_ASSERT'], target='mingw', dirs=['agent', 'shared', 'include'], driver='conin.cc'),
    'agent-term': dict(sub='agent', defs=['-DWINPTY_AGENT_ASSERT'], target='mingw', dirs=['agent', 'shared', 'include'], driver='terminal.cc'),
    'libwinpty': dict(sub='libwinpty', defs=['-DCOMPILING_WINPTY_DLL'], target='mingw', dirs=['libwinpty', 'shared', 'include']),
    'debugserver': dict(sub='debugserver', defs=[], target='mingw', dirs=['debugserver', 'shared', 'include']),
    'unixsignal': dict(sub='unix-adapter', defs=[], target='host', dirs=['unix-adapter', 'shared', 'include'], driver='unix.cc'),
    'unixadapter': dict(sub='unix-adapter', defs=[], target='host', dirs=['unix-adapter', 'shared', 'include']),
}


def host_flags():
    return ['-std=c++11', '-fno-pie', '-isystem', os.path.join(HERE, 'stubs'), '-D__CYGWIN__', '-DWINPTY_STUBS=1',
            '-I', os.path.join(BUILD, 'gen'), '-I', os.path.join(REPO, 'src/include')]


def gen_version():
    d = os.path.join(BUILD, 'gen')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 'GenVersion.h')
    if not os.path.exists(f):
        with Lock(os.path.join(BUILD, 'gen.lock')):
            with open(f + '.tmp', 'w') as o:
                o.write('const char GenVersion_Version[] = "0.0.0-analysis";\nconst char GenVersion_Commit[] = "none";\n')
            os.rename(f + '.tmp', f)


def build(prog):
    """Returns the path of the JSON dump of a program."""
    spec = PROGRAMS[prog]
    gen_version()
    dump = irdump()
    h = hashlib.sha256()
    h.update(repr((spec, COMMON, REPO)).encode())
    file_hash(h, os.path.abspath(__file__))
    file_hash(h, os.path.join(HERE, 'irdump.cpp'))
    for d in spec['dirs']:
        for f in tree_files(d):
            file_hash(h, f)
    file_hash(h, os.path.join(REPO, 'src', spec['sub'], 'subdir.mk'))
    if spec.get('driver'):
        file_hash(h, os.path.join(HERE, 'drivers', spec['driver']))
    if spec['target'] == 'host':
        for d, dn, fn in os.walk(os.path.join(HERE, 'stubs')):
            dn.sort()
            for f in sorted(fn):
                file_hash(h, os.path.join(d, f))
    out = os.path.join(BUILD, '%s-%s.json' % (prog, h.hexdigest()[:20]))
    with Lock(os.path.join(BUILD, prog + '.lock')):
        if os.path.exists(out):
            return out
        for f in os.listdir(BUILD):           # drop older dumps of this program
            if f.startswith(prog + '-') and f.endswith('.json'):
                os.unlink(os.path.join(BUILD, f))
        clang = _tool('clang++-18', 'clang++')
        tmp = tempfile.mkdtemp(prefix='irb-', dir=BUILD)
        try:
            flags = mingw_flags() if spec['target'] == 'mingw' else host_flags()
            srcs = _objects_from_mk(spec['sub'])

            if spec.get('driver'):
                srcs = srcs + [os.path.join(HERE, 'drivers', spec['driver'])]

            def one(i_s):
                i, s = i_s
                o = os.path.join(tmp, '%02d.bc' % i)
                x = ['-fno-access-control', '-I', os.path.join(REPO, 'src', spec['sub'])] if s.startswith(HERE) else []
                sh([clang] + COMMON + flags + spec['defs'] + x + ['-o', o, os.path.join(REPO, s)])
                return o
            with ThreadPoolExecutor(8) as ex:
                objs = list(ex.map(one, enumerate(srcs)))
            bc = os.path.join(tmp, 'all.bc')
            sh([_tool('llvm-link-18', 'llvm-link'), '-o', bc] + objs)
            m = os.path.join(tmp, 'm.bc')
            sh([_tool('opt-18', 'opt'), '-passes=mem2reg', bc, '-o', m])
            j = os.path.join(tmp, 'o.json')
            sh([dump, m, j])
            os.rename(j, out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


_loaded = {}


def load(prog):
    if prog not in _loaded:
        for again in range(4):
            try:
                with open(build(prog)) as f:
                    _loaded[prog] = json.load(f)
                break
            except FileNotFoundError:       # pruned by another check
                if again == 3:
                    raise
    return _loaded[prog]


if __name__ == '__main__':
    for p in (sys.argv[1:] or PROGRAMS):
        print(p, build(p))
