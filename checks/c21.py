"""Terminal modes are switched on and off in pairs."""
import core
from checks import term


class C21(term.Term):
    only = 'C21'


def check():
    c = core.Check('C21', 'mode off -> its h sequence -> mode on -> its l sequence -> off; after a request to enable or disable mouse mode, show or hide the cursor, the modes are as requested')
    p = core.program('agent-term')
    c.run([('agent-term', core.fn(p, e), C21, {'klimit': 16}) for e in ('vp_normal', 'vp_plain', 'vp_color')])
    for k in ('on', 'off', 'show', 'hide', 'mouse', 'cursor'):
        c.need(c.violations or c.counts.get(k), 'no %s found in the terminal code' % k)
    return c.finish('Any sequence of uses of a terminal, in each output mode, for any console contents.', 9)
