"""Models of library functions for the abstract interpreter."""
import re
from ai import V, mk, C, A, G, ZERO, ONE, UNDEF, split, icmp, binop, isptr, sgn, M64, cast

# Windows / C functions: which arguments the callee writes through.
# True = writes through none.
NO_WRITE = {}
for n in ('CancelIo CloseDesktop CloseHandle CloseWindowStation CreateConsoleScreenBuffer CreateDesktopW '
          'CreateEventW CreateFileW CreateNamedPipeW CreateWindowStationW CryptReleaseContext DisconnectNamedPipe '
          'FillConsoleOutputAttribute FillConsoleOutputCharacterW FreeLibrary FreeSid GenerateConsoleCtrlEvent GetCommandLineW '
          'GetConsoleCP GetConsoleOutputCP GetConsoleWindow GetCurrentProcess GetCurrentProcessId GetCurrentThread GetCurrentThreadId '
          'GetDoubleClickTime GetFileAttributesW GetLargestConsoleWindowSize GetLastError GetProcAddress GetProcessWindowStation '
          'GetStdHandle GetThreadDesktop GetTickCount LoadLibraryW LocalFree MapVirtualKeyW PostMessageW ResetEvent SetEvent SendMessageW '
          'SetConsoleCtrlHandler SetConsoleCursorPosition SetConsoleMode SetConsoleScreenBufferSize SetConsoleTextAttribute SetConsoleTitleW '
          'SetConsoleWindowInfo SetLastError SetNamedPipeHandleState SetProcessWindowStation Sleep VkKeyScanW WaitForMultipleObjects '
          'WaitForSingleObject WaitNamedPipeW fflush fwrite isdigit memcmp strchr strlen strrchr wcscmp wcslen wcsncmp atoi free '
          'LeaveCriticalSection EnterCriticalSection InitializeCriticalSection DeleteCriticalSection GetModuleHandleW puts fputs putchar '
          'strcmp strncmp close isatty usleep raise kill pthread_join strerror getenv access perror tcsetattr '
          'write wcsrchr wcschr').split():
    NO_WRITE[n] = True
for n, idx in {
    'ConnectNamedPipe': (), 'CommandLineToArgvW': (1,), 'select': (1, 2, 3), 'sigaction': (2,), 'pthread_create': (0,), 'ReadFile': (1, 3), 'WriteFile': (3,), 'GetOverlappedResult': (2,),
    'CreateProcessW': (1, 9), 'DuplicateHandle': (3,), 'WideCharToMultiByte': (4, 7), 'TransactNamedPipe': (3, 5),
    'WriteConsoleInputW': (3,), 'WriteConsoleOutputW': (4,), 'ReadConsoleOutputW': (1, 4), 'ReadConsoleInputW': (1, 3),
    'GetConsoleScreenBufferInfo': (1,), 'GetConsoleCursorInfo': (1,), 'GetConsoleMode': (1,), 'GetConsoleTitleW': (0,),
    'GetConsoleProcessList': (0,), 'GetEnvironmentVariableA': (1,), 'GetModuleFileNameW': (1,), 'GetModuleFileNameA': (1,),
    'GetUserObjectInformationW': (2, 4), 'GetTokenInformation': (2, 4), 'GetVersionExW': (0,), 'GetSystemDirectoryW': (0,),
    'GetSystemTimeAsFileTime': (0,), 'CryptGenRandom': (2,), 'CryptAcquireContextW': (0,), 'OpenProcessToken': (2,), 'OpenThreadToken': (3,),
    'SetEntriesInAclW': (3,), 'InitializeSecurityDescriptor': (0,), 'SetSecurityDescriptorDacl': (0,), 'AllocateAndInitializeSid': (10,),
    'GetSecurityInfo': (3, 4, 5, 6, 7), 'GetModuleHandleExW': (2,), 'vsnprintf': (0,), 'strtoll': (1,), 'read': (1,), 'pipe': (0,),
    'tcgetattr': (1,), 'ioctl': (2,), 'mbstowcs': (0,), 'wcstombs': (0,), 'realpath': (1,), 'strcpy': (0,), 'FillConsoleOutputAttribute': (4,),
    'FillConsoleOutputCharacterW': (4,),
}.items():
    NO_WRITE[n] = idx

OVERLAPPED_ARG = {'ConnectNamedPipe': 1, 'ReadFile': 4, 'WriteFile': 4, 'GetOverlappedResult': 1, 'TransactNamedPipe': 6}


def _memcpy(I, st, ins, args):
    n = st.known(args[2])
    if n.k == 'c' and n.a[0] <= 1 << 20:
        st.copy_bytes(I.prog, args[0], args[1], n.a[0])
    else:
        I.havoc_arg(st, args[0], ins)
    return args[0]


def _const(v):
    return lambda I, st, ins, args: v


def _pure(name):
    def f(I, st, ins, args):
        lit = I.prog.literal(args[0]) if args else None
        if name in ('wcslen', 'strlen') and lit is not None:
            return C(len(lit))
        return mk('pure', name, *args)
    return f


def _getlasterror(I, st, ins, args):
    return None


C_MODELS = {
    'memcpy': _memcpy, 'memmove': _memcpy,
    'GetCurrentProcess': _const(C(M64)),
    'GetCurrentThread': _const(C(M64 - 1)),
    'GetCurrentThreadId': _const(mk('pure', 'GetCurrentThreadId')),
    'GetCurrentProcessId': _const(mk('pure', 'GetCurrentProcessId')),
    'wcslen': _pure('wcslen'), 'strlen': _pure('strlen'),
    'free': _const(ZERO),
}

STRCLS = ('basic_string', 'vector', 'unordered_map', 'map', 'deque', 'set')
ACC = {'operator[]', 'at', 'data', 'begin', 'end', 'front', 'back', 'c_str', 'rbegin', 'rend', 'cbegin', 'cend', 'get', 'operator->', 'operator*', 'find'}
MUT_CAT = {'append', 'operator+=', 'push_back', 'insert', 'emplace_back', 'operator<<'}


def argtok(I, st, a):
    """What an argument stands for: the content token of a string object, a literal, a scalar."""
    if a.k == 'c':
        return a
    b, o = split(a)
    if st.hastok(a):
        return st.tok(a)
    c = st.mem.get((b, o))
    if b.k == 'L' and c is not None:
        return c[1]
    if b.k == 'g' and I.prog.literal(a) is not None:
        return a
    if b.k == 'g':
        return a
    if b.k in ('L',):
        return st.tok(a)
    return a


def objtok(I, st, a):
    return st.tok(a)


def isref_obj(F_dem, i):
    return True


def limit(I, st, ins, t):
    if t.d > 16:
        return I.fresh(st, 'tokn', st.frames[-1].ctx, ins[0])
    return t


def split_member(short):
    i = short.rfind('::')
    return (short[:i], short[i + 2:]) if i >= 0 else ('', short)


def cxx_model(I, st, ins, name, short, args, F):
    prog = I.prog
    dem = prog.dem(name)
    cls, meth = split_member(short)
    clsname = cls.rsplit('::', 1)[-1] if cls else ''
    sret = 0
    if F is not None:
        sret = F.sret
    else:
        d = prog.decls.get(name)
        sret = d.get('sret', 0) if d else 0
    const = name.startswith('_ZNK')
    member = cls != '' and (name.startswith('_ZN')) and clsname not in ('std', '__cxx11', '__gnu_cxx') and args
    fr = st.frames[-1]
    if member and meth == clsname:          # constructor
        this = args[0]
        rest = args[1:]
        if not rest:
            st.settok(this, mk('empty'))
        else:
            p0 = rest[0]
            if re.search(r'\((std::(__cxx11::)?)?\w+<.*> ?(const&|&&)(, .*)?\)$', dem) and (st.hastok(p0) or isptr(p0) or p0.k in ('A', 'ld', 'arg', 'call', 'gepv', 'elem')) and not re.search(r'allocator<[^>]*> const&\)$', dem.split('::' + meth)[-1]) or \
               (meth in dem and re.search(r'\(std::(__cxx11::)?(basic_string|vector)<.*>( const&|&&)\)$', dem)):
                t = st.tok(p0)
                st.settok(this, t)
                if dem.endswith('&&)'):
                    st.settok(p0, mk('empty'))
            elif re.search(r'\((std::)?allocator<.*> const&\)$', dem):
                st.settok(this, mk('empty'))
            else:
                toks = []
                for a in rest:
                    b, o = split(a)
                    if b.k == 'L' and not st.hastok(a) and (b, o) not in st.mem:
                        continue            # allocator temporaries
                    toks.append(argtok(I, st, a))
                if len(toks) == 1 and toks[0].k in ('g', 'A') and prog.literal(toks[0]) is not None:
                    st.settok(this, toks[0])
                else:
                    st.settok(this, limit(I, st, ins, mk('cons', clsname, *toks)))
        I.setret(st, ins, this)
        return
    if member and meth.startswith('~'):
        return
    if member:
        this = args[1] if sret else args[0]
        rest = args[2:] if sret else args[1:]
        t = st.tok(this)
        if meth in ('operator=', 'assign', 'str_moved', 'swap', 'assign'):
            if meth == 'operator=' or (meth == 'assign' and len(rest) == 1):
                if rest:
                    nt = argtok(I, st, rest[0]) if not (rest[0].k in ('arg', 'ld', 'A', 'H') or isptr(rest[0])) else (st.tok(rest[0]) if ('basic_string<' in dem.split('operator=')[-1] or 'vector<' in dem.split('operator=')[-1] or 'basic_string<' in dem.split('assign')[-1]) else argtok(I, st, rest[0]))
                    st.settok(this, nt)
                    if dem.endswith('&&)'):
                        st.settok(rest[0], mk('empty'))
            elif meth == 'assign':
                st.settok(this, limit(I, st, ins, mk('cons', clsname, *[argtok(I, st, a) for a in rest])))
            elif meth == 'str_moved':
                if sret:
                    st.settok(args[0], t)
                return
            elif meth == 'swap':
                o = rest[0]
                t2 = st.tok(o)
                st.settok(o, t)
                st.settok(this, t2)
            I.setret(st, ins, this)
            return
        if const or meth in ACC:
            if meth in ('data', 'c_str', 'begin', 'get', 'front', 'cbegin'):
                r = mk('elem', this, ZERO)
                if meth == 'get' or (meth in ('data', 'c_str') and const):
                    r = mk('elem', this, ZERO)
            elif meth in ('operator[]', 'at') and rest:
                r = mk('elem', this, st.known(rest[0]))
            elif meth in ('back',):
                r = mk('elem', this, mk('last', t))
            elif meth in ('end', 'cend'):
                r = mk('elem', this, mk('end', t))
            elif meth == 'empty':
                r = icmp('eq', ZERO if t.k == 'empty' else mk('pure', 'size', t), ZERO, 64)
            elif meth in ('size', 'length'):
                r = ZERO if t.k == 'empty' else mk('pure', 'size', t)
            elif meth == 'operator*' or meth == 'operator->':
                r = mk('ld', this, 0, 8, t)
            else:
                r = mk('pure', meth, t, *[argtok(I, st, a) for a in rest])
            if sret:
                st.settok(args[0], limit(I, st, ins, mk('pure', meth, t, *[argtok(I, st, a) for a in rest])))
                return
            if r.d > 16:
                r = I.fresh(st, 'call', fr.ctx, ins[0], meth)
            I.setret(st, ins, r)
            return
        if meth in MUT_CAT:
            toks = []
            for a in rest:
                toks.append(argtok(I, st, a))
            nt = mk('cat2', t, *toks) if t.k != 'empty' or len(toks) != 1 else (toks[0] if False else mk('cat2', t, *toks))
            st.settok(this, limit(I, st, ins, nt))
            h = getattr(I.mon, 'mutated', None)
            if h:
                h(I, st, this, short, toks)
            I.setret(st, ins, this)
            return
        if meth == 'clear':
            st.settok(this, mk('empty'))
            return
        if meth in ('reserve', 'shrink_to_fit'):
            return
        st.settok(this, limit(I, st, ins, mk('mod', meth, t, *[argtok(I, st, a) for a in rest])))
        if sret:
            st.settok(args[0], limit(I, st, ins, mk('res', meth, t)))
            return
        I.setret(st, ins, I.fresh(st, 'call', fr.ctx, ins[0], short))
        return
    # free functions
    if short == 'std::copy' and len(args) == 3:
        b0, o0 = split(args[0])
        b1, o1 = split(args[1])
        if b0 is b1 and 0 <= o1 - o0 <= 4096:
            if o1 > o0:
                st.copy_bytes(prog, args[2], args[0], o1 - o0)
            I.setret(st, ins, A(args[2], o1 - o0))
            return
    toks = [argtok(I, st, a) for a in (args[1:] if sret else args)]
    if meth.startswith('operator') and not sret:
        if meth in ('operator==', 'operator!='):
            r = icmp('eq', mk('pure', 'cmp', *sorted(toks, key=lambda v: v.uid)), ONE, 1) if toks[0] is not toks[1] else ONE
            r = mk('pure', 'strEq', *sorted(toks, key=lambda v: v.uid)) if toks[0] is not toks[1] else ONE
            from ai import neg
            I.setret(st, ins, r if meth == 'operator==' else neg(r))
            return
    if sret:
        st.havoc_range(args[0], 32, I.fresh(st, 'hv', fr.ctx, ins[0], 'sret'))
        st.settok(args[0], limit(I, st, ins, mk('cat2' if meth == 'operator+' else 'fn', short, *toks)))
        return
    # writes through non-const references / pointers: havoc locals passed by address
    params = dem[dem.find('('):] if '(' in dem else ''
    n_const = params.count(' const&')
    for a in args:
        b, o = split(a)
        if b.k == 'L' and n_const < len(args):
            I.havoc_arg(st, a, ins)
    I.setret(st, ins, I.fresh(st, 'call', fr.ctx, ins[0], short))
