"""The agent closes its output pipes, and itself, only when auto-shutdown allows it; and then it does."""
import core
from checks import agentlife


def check():
    c = core.Check('C17', 'output pipe closed -> auto-shutdown requested, exit seen, scraped since, mouse mode off, connected, nothing left to send; agent ends -> control pipe lost, or exit requested and all closed')
    c.run(agentlife.jobs(agentlife.C17))
    for k in ('close', 'wait', 'exit', 'end'):
        c.need(c.violations or c.counts.get(k), 'no %s found in the life of an agent' % k)
    return c.finish('Every history of pipe events, timeouts and requests of one agent, with and without a separate error pipe, from its construction to its end.', 10)
