"""The adapter restores the terminal."""
import core
from checks import adapter


class C32(adapter.Main):
    only = 'C32'


def check():
    c = core.Check('C32', 'terminal: modes saved -> changed -> worker threads stopped -> the saved modes restored on the same descriptor -> end')
    p = core.program('unixadapter')
    c.run([('unixadapter', core.fn(p, 'main'), C32, {'klimit': 200, 'klimit_loop': 200})])
    for k in ('restored', 'changed', 'end'):
        c.need(c.violations or c.counts.get(k), 'no %s found in the adapter' % k)
    return c.finish('Every path of the adapter.', 6)
