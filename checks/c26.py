"""Synthesised modifier keys are pressed and released in pairs, around the key, in mirror order."""
import ai
import core
from ai import A, C, ZERO, icmp, mk, split
from checks import conin

BITS = {0x10: (0x10,), 0x11: (0x8, 0x4), 0x12: (0x2, 0x1)}      # VK_SHIFT, VK_CONTROL, VK_MENU -> their flags in the key state
NAME = {0x10: 'Shift', 0x11: 'Ctrl', 0x12: 'Alt'}
MODS = 0x1f
ASKED = [sum(c) for n in [(1, 0), ] for c in [(a, b, x, d, e) for a in (0, 1) for b in (0, 2) for x in (0, 8) for d in (0, 0x10) for e in (0, 0x100)]]
DOWN, VK, STATE, TYPE = 4, 10, 16, 0


class C26(core.Mon):
    """mon: 'keys' (requested modifiers), 'st' (stack of (key, state)), 'main' (the key itself went down/up), 'up' (a modifier was released)."""
    std_throws = False
    unroll = True
    init = ()
    interest = staticmethod(lambda n, sh: 'INPUT_RECORD' in n or n.startswith('SendMessage'))

    def g(self, st, k, d=None):
        return dict(st.mon).get(k, d)

    def s(self, st, k, v):
        d = dict(st.mon)
        d[k] = v
        st.mon = tuple(sorted(d.items(), key=lambda x: x[0]))

    def start(self, st, I):
        self.rec = None

    def part(self, I, st):
        return ()

    def walk(self, I, F):
        if F.repo and F.short.startswith(('ConsoleInput::', 'vp_')):
            return True
        return None

    def call(self, I, st, name, short, args, site):
        d = I.prog.dem(name) if name.startswith('_Z') else ''
        m = short.rpartition('::')[2].split('[')[0]
        if name == 'vp_keys':
            return ('fork', [(C(v), lambda s, v=v: self.s(s, 'keys', v)) for v in ASKED])
        if 'std::vector<_INPUT_RECORD' in d.split('(')[0]:
            if m in ('push_back', 'emplace_back'):
                self.event(I, st, args[1], site)
            elif m not in ('size', 'empty', 'data', 'clear', 'reserve', 'begin', 'end', 'vector', '~vector', 'operator'):
                raise core.Broken('%s: events are queued with %s' % (I.where(site), m))
            return ('ret', I.fresh(st, 'call', 0, site[3], m))
        if name == 'vp_between':
            self.end(I, st, site)
            return ('ret', ZERO)
        if name.startswith('SendMessage'):
            self.s(st, 'msg', True)
        return None

    def const(self, I, st, p, off, size):
        v = st.load(I.prog, A(split(p)[0], split(p)[1] + off), size, size * 8)
        return v.a[0] if v.k == 'c' else v

    def event(self, I, st, p, site):
        w = I.where(site)
        vk = self.const(I, st, p, VK, 2)
        down = self.const(I, st, p, DOWN, 4)
        state = self.const(I, st, p, STATE, 4)
        stack = self.g(st, 'st', ())
        held = stack[-1][1] if stack else 0
        bad = lambda msg, key: I.report(st, site, msg, key)
        keys = self.g(st, 'keys')
        if vk not in BITS:
            # the key itself, or the characters it stands for
            if type(vk) is int:
                return                    # a character of an escape sequence
            self.oblige('%s: the key itself' % w)
            if type(down) is int and not down:
                self.count('key')
                self.s(st, 'main', True)
                if type(state) is not int:
                    bad('the modifier state of a key cannot be determined', 'state')
                elif state & MODS != held:
                    bad('a key is sent with a modifier state that differs from the modifiers held down', 'state')
            elif type(down) is int and type(state) is int and state & MODS != held:
                bad('a key is sent with a modifier state that differs from the modifiers held down', 'state')
            return
        self.oblige('%s: %s goes %s' % (w, NAME[vk], 'down' if down else 'up'))
        if type(down) is not int or type(state) is not int:
            bad('the state of a modifier key cannot be determined', 'mod')
            return
        new = state & MODS
        if down:
            self.count('down')
            added = new & ~held
            if held & ~new or added not in BITS[vk]:
                bad('%s goes down, but the modifier state it carries does not show it (and only it) as added' % NAME[vk], 'down')
            if self.g(st, 'main'):
                bad('%s goes down after the key' % NAME[vk], 'late')
            self.s(st, 'st', stack + ((vk, new),))
        else:
            self.count('up')
            if not stack or stack[-1][0] != vk:
                bad('%s goes up although it is not the modifier pressed last' % NAME[vk], 'mirror')
                if not any(k == vk for k, v in stack):
                    return
                stack = tuple(x for x in stack if x[0] != vk) + ((vk, 0),)
            below = stack[-2][1] if len(stack) > 1 else 0
            if new != below:
                bad('%s goes up, but the modifier state it carries still shows it, or loses another' % NAME[vk], 'up')
            self.s(st, 'st', stack[:-1])

    def end(self, I, st, site):
        self.oblige('a key press is complete')
        self.count('end')
        stack = self.g(st, 'st', ())
        if stack:
            I.report(st, site, 'a key press leaves %s held down' % NAME[stack[-1][0]], 'held')


def check():
    c = core.Check('C26', 'modifier down -> its flag added; key -> state of held modifiers; modifier up -> mirror order, its flag removed; end -> none held')
    p = core.program('agent-conin')
    c.run([('agent-conin', core.fn(p, 'vp_press'), C26, {'klimit': 32, 'klimit_loop': 32})])
    for k in ('down', 'up', 'key', 'end'):
        c.need(c.violations or c.counts.get(k), 'no %s found in key synthesis' % k)
    c.need(c.violations or c.counts.get('end', 0) >= 32, 'not every modifier combination completes')
    return c.finish('Every combination of Ctrl, left Alt, right Alt, Shift and the enhanced flag, for every key and character, in both console input modes.', 8)
