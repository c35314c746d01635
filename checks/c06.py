"""Overlapped operations end before their records go out of scope."""
from checks import libio


def check():
    return libio.run('C06', 'no function is left (return or unwinding) while an operation using its OVERLAPPED record is pending',
                     'Typestate of the control pipe over every path (exceptional edges included) of every exported function.', 20)
