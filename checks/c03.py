"""An interrupted exchange closes the control pipe; a closed pipe is never used."""
from checks import libio


def check():
    return libio.run('C03', 'an exchange that ends before its reply is consumed closes the pipe and forgets its handle; a completed one does not; no I/O on a closed pipe',
                     'Typestate of the control pipe over every path (exceptional edges included) of every exported function.', 20)
