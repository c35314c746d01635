"""Control-pipe I/O happens under the session lock."""
from checks import libio


def check():
    return libio.run('C04', 'every I/O and close of the session pipe between acquiring and releasing the session lock; lock balance on all exits',
                     'Typestate of the control pipe over every path (exceptional edges included) of every exported function.', 20)
