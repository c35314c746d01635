"""Decoded input is written to the console in order and completely."""
import core
from checks import conin


class C25(conin.Input):
    only = 'C25'


def check():
    c = core.Check('C25', 'decoded events are written before anything that bypasses the queue, before the list is discarded, and once')
    p = core.program('agent-conin')
    c.run([('agent-conin', core.fn(p, 'vp_input'), C25, {})])
    for k in ('event', 'write', 'direct', 'between'):
        c.need(c.violations or c.counts.get(k), 'no %s found in the input side of the agent' % k)
    return c.finish('Every history of received input, timeouts and console modes of one agent.', 4)
