"""The adapter passes the exit status of the child through."""
import core
from checks import adapter


class C35(adapter.Main):
    only = 'C35'


def check():
    c = core.Check('C35', 'child started -> output workers stopped -> its exit code obtained -> returned unchanged; failed start -> message, failure status, terminal modes untouched')
    p = core.program('unixadapter')
    c.run([('unixadapter', core.fn(p, 'main'), C35, {'klimit': 200, 'klimit_loop': 200})])
    for k in ('spawn', 'code', 'status', 'failed'):
        c.need(c.violations or c.counts.get(k), 'no %s found in the adapter' % k)
    return c.finish('Every path of the adapter\'s main function, every call failing or succeeding.', 3)
