"""Control-pipe I/O happens under the session lock."""
from checks import libio


def check():
    return libio.run('C05', 'wait call arguments (agent process, configured timeout, event of the pending operation) and the error code reached from each wait outcome',
                     'Typestate of the control pipe over every path (exceptional edges included) of every exported function.', 20)
