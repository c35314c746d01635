"""At most one status request is outstanding."""
import core
from checks import conin


class C24(conin.Input):
    only = 'C24'
    interest = staticmethod(lambda n, sh: sh.split('(')[0] == 'matchDsr' or sh.endswith('::sendDsr') or sh.startswith('DsrSender'))

    def walk(self, I, F):
        if F.repo and F.short.startswith('ConsoleInput::') and F.name not in I.rel and not F.short.endswith('::ConsoleInput'):
            return None              # its effect summary
        return conin.Input.walk(self, I, F)


def check():
    c = core.Check('C24', 'status request -> undecodable input waiting, none unanswered; undecodable input waiting and none unanswered -> status request')
    p = core.program('agent-conin')
    c.run([('agent-conin', core.fn(p, 'vp_input'), C24, {})])
    for k in ('dsr', 'waiting'):
        c.need(c.violations or c.counts.get(k), 'no %s found in the input side of the agent' % k)
    return c.finish('Every history of received input, timeouts and console modes of one agent.', 2)
