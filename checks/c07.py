"""The agent closes a pipe only after every operation on it has ended."""
import core
from checks.agentio import Pipe


class C07(Pipe):
    only = 'C07'


def check():
    c = core.Check('C07', 'cancel, then wait for every outstanding operation, then close and free; one read and one write at a time')
    p = core.program('agent-pipe')
    c.run([('agent-pipe', core.fn(p, 'vp_pipe'), C07, {'klimit': 3, 'klimit_loop': 2})])
    for k in ('issue-R', 'issue-W', 'issue-C', 'result', 'close'):
        c.need(c.violations or c.counts.get(k), 'no %s found in the life of a pipe' % k)
    return c.finish('Every history of calls of one agent pipe: opening, connecting, any sequence of service, write, read and close calls with every outcome of every operation, and its destruction.', 10)
