"""Common machinery of the checks: running analyses, evidence, verdicts."""
import json, multiprocessing, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vbuild
import ai

REPO = os.environ.get('VERIF_REPO', '/repo')


class Broken(Exception):
    """The analysis cannot give an answer (vanished anchor, budget exceeded, build failure)."""


_progs = {}


def program(name):
    p = _progs.get(name)
    if p is None:
        try:
            p = _progs[name] = ai.Program(vbuild.load(name), REPO)
        except Exception as e:
            raise Broken('cannot analyse %s: %s' % (name, e))
    return p


def fn(prog, short, pick=None):
    """The repository function of that (qualified) name; Broken when it vanished."""
    fs = [f for f in prog.find(short) if f.repo]
    if pick:
        fs = [f for f in fs if pick(f)]
    if not fs:
        raise Broken('anchor vanished: no function %s' % short)
    return fs[0]


def exported(prog):
    return sorted((f for f in prog.fns.values() if f.repo and f.short.startswith('winpty_') and '::' not in f.short
                   and '/libwinpty/winpty.cc' in f.file and f.link != 'internal'), key=lambda f: f.line)


def mentions(p, F, text):
    """Does the function use this string literal?"""
    f = p.raw['funcs'][F.name]
    for b in f['blocks']:
        for i in b:
            for o in i[4:]:
                if _lit(p, o, text):
                    return True
    return False


def _lit(p, o, text):
    if isinstance(o, (list, tuple)):
        if len(o) > 1 and o[0] == 'g':
            return p.literal(ai.G(o[1])) == text
        return any(_lit(p, x, text) for x in o)
    return False


class Result(object):
    def __init__(self):
        self.viol = []          # dicts
        self.cov = {}
        self.samples = []
        self.counts = {}
        self.fns = set()
        self.notes = set()
        self.extra = {}


class Check(object):
    def __init__(self, prop, rule, technique_note=''):
        self.prop = prop
        self.rule = rule
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.violations = {}
        self.obligations = 0
        self.sites = set()
        self.samples = []
        self.entries = []
        self.fns = set()
        self.blocks = 0
        self.calls = 0
        self.paths = 0
        self.joins = 0
        self.notes = set()
        self.counts = {}
        self.assumptions = ['the IR of clang 18 (mem2reg, -O0) for x86_64-w64-windows-gnu represents the sources',
                            'no aliasing between distinct symbolic objects; library functions behave as modelled in engine/models.py']
        self.thorough = self.tier == 'thorough'

    # -- findings
    def violate(self, key, msg, where='', trace=(), stack=()):
        key = str(key)
        if key not in self.violations:
            self.violations[key] = {'key': key, 'message': msg, 'where': where, 'path': list(trace), 'stack': list(stack)}

    def oblige(self, desc=None, n=1):
        """One obligation examined (discharged unless a violation is reported)."""
        self.obligations += n
        if desc is not None:
            self.sites.add(desc)
            if len(self.samples) < 12 and desc not in self.samples:
                self.samples.append(desc)

    def need(self, cond, msg):
        if not cond:
            raise Broken(msg)

    # -- running
    def absorb(self, r):
        for v in r['viol']:
            self.violate(v['key'], v['message'], v['where'], v['path'], v['stack'])
        self.entries.append(r['entry'])
        self.fns |= set(r['fns'])
        self.blocks += r['blocks']
        self.calls += r['calls']
        self.paths += r['paths']
        self.joins += r['joins']
        self.notes |= set(r['notes'])
        for o in r['obl']:
            self.oblige(o)
        for k, v in r['counts'].items():
            self.counts[k] = self.counts.get(k, 0) + v

    def run(self, jobs, timeout=600):
        """jobs: list of (program name, entry Fn, monitor factory, kwargs).  Returns per-job 'out' values."""
        global _jobs
        _jobs = jobs
        outs = []
        if len(jobs) == 1:
            res = [_job(0)]
        else:
            for j in jobs:
                program(j[0]).effects()
            ctx = multiprocessing.get_context('fork')
            with ctx.Pool(min(8, len(jobs))) as pool:
                res = pool.map_async(_job, range(len(jobs)), 1).get(timeout)
        for r in res:
            if 'error' in r:
                raise Broken(r['error'])
            self.absorb(r)
            outs.append(r['out'])
        return outs

    # -- output
    def finish(self, explanation, min_obligations=1):
        if self.obligations < min_obligations and not self.violations:
            raise Broken('only %d obligations found, at least %d expected: the rule has lost its instances' % (self.obligations, min_obligations))
        known = load_known(self.prop)
        bad = []
        for k, v in sorted(self.violations.items()):
            hit = None
            for kf in known:
                if kf['key'] == k:
                    hit = kf
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, hit['text']))
            else:
                bad.append(v)
        rdir = os.path.join(ROOT, 'build', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s.json' % self.prop)
        cov = {
            'explanation': explanation,
            'rule': self.rule,
            'obligations': self.obligations,
            'distinct_obligations': len(self.sites),
            'samples': self.samples[:12],
            'entries_analysed': self.entries[:60],
            'functions_analysed': len(self.fns),
            'function_names': sorted(self.fns)[:80],
            'basic_blocks_interpreted': self.blocks,
            'call_instructions': self.calls,
            'abstract_paths_ended': self.paths,
            'joins': self.joins,
            'notes': sorted(self.notes)[:20],
        }
        cov.update(self.counts)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(bad),
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations (%d distinct) over %d entries, %d functions, %d blocks; %d violation(s); %.1fs' % (
            self.prop, self.obligations, len(self.sites), len(self.entries), len(self.fns), self.blocks, len(bad), time.time() - self.t0))
        if bad:
            with open(rp, 'w') as f:
                json.dump(bad, f, indent=1, default=str)
            for v in bad[:10]:
                print('  %s\n    at %s' % (v['message'], v['where']))
                for s in v['path'][-14:]:
                    print('      %s' % s)
            if len(bad) > 10:
                print('  ... and %d more' % (len(bad) - 10))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        return 0


_jobs = None


def _job(i):
    pname, F, factory, kw = _jobs[i]
    try:
        prog = program(pname)
        m = factory()
        m.check_obl = []
        m.counts = {}
        setup = kw.pop('setup', None)
        args = kw.pop('args', None)
        kw.setdefault('time_limit', 500.0)
        I = ai.Interp(prog, m, **kw)
        m.I = I
        try:
            I.run(F, args, setup)
        except ai.Budget as e:
            if not I.violations:        # what was found before the limit stands
                return {'error': 'budget exceeded analysing %s: %s' % (F.short, e)}
        out = m.output() if hasattr(m, 'output') else None
        viol = []
        for k, v in I.violations.items():
            viol.append({'key': k if isinstance(k, str) else '|'.join(str(x) for x in k), 'message': v.msg, 'where': v.where,
                         'path': v.trace, 'stack': getattr(v, 'stack', [])})
        return {'entry': F.short, 'viol': viol, 'fns': [prog.fns[x].short for x in I.visited_fns if prog.fns[x].repo], 'blocks': I.blocks,
                'calls': I.calls, 'paths': I.paths, 'joins': I.joins, 'notes': sorted(I.notes), 'obl': m.check_obl, 'counts': m.counts, 'out': out}
    except Broken as e:
        return {'error': str(e)}
    except Exception:
        return {'error': 'analysis of %s crashed:\n%s' % (F.short, traceback.format_exc())}


def load_known(prop):
    p = os.path.join(ROOT, 'known_findings.txt')
    r = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                r.append({'key': key[4:] if key.startswith('key=') else key, 'text': text})
    return r


class Mon(ai.Monitor):
    """Monitor with obligation bookkeeping."""

    def oblige(self, desc):
        self.check_obl.append(desc)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


def calls(*names):
    s = set(names)
    return staticmethod(lambda n, sh: n in s or sh in s)


def minmax(I, st, short, dem, args):
    """std::min and std::max: one of the two references, with the comparison known."""
    m = short.split('[')[0]
    if m not in ('std::min', 'std::max') or len(args) != 2:
        return None
    t = dem.split('<', 1)[1].split('>', 1)[0] if '<' in dem else ''
    size = {'unsigned long long': 8, 'long long': 8, 'unsigned long': 4, 'long': 4, 'int': 4, 'unsigned int': 4, 'short': 2, 'unsigned short': 2}.get(t)
    if size is None:
        return None
    a, b = (st.load(I.prog, x, size, size * 8) for x in args)
    x, y = (b, a) if m == 'std::min' else (a, b)       # the second is returned when x < y
    c = ai.icmp('ult' if t.startswith('unsigned') else 'slt', x, y, size * 8)
    return ('fork', [(args[0], lambda s: s.assume(c, False)), (args[1], lambda s: s.assume(c, True))])
