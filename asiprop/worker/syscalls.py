"""Permanent stand-ins for the system calls the code under test makes.

Installed before infi.asi is imported, so that it does not matter whether the code looks a function up when it
calls it or bound it at import time (`from os import read`).  Each passes the call on to whatever is attached at
the moment, and to the real function otherwise."""
import ctypes, fcntl, os, select

import infi.os_info


class Forwarder(object):
    def __init__(self, holder, name):
        self.holder, self.name = holder, name
        self.real = getattr(holder, name)
        self.attached = []

    def __call__(self, *args, **kwargs):
        return (self.attached[-1] if self.attached else self.real)(*args, **kwargs)

    def attach(self, func):
        self.attached.append(func)

    def detach(self):
        self.attached.pop()


def forward(holder, name):
    f = Forwarder(holder, name)

    def function(*args, **kwargs):
        return f(*args, **kwargs)
    function.__name__ = name
    setattr(holder, name, function)
    return f


ioctl = forward(fcntl, "ioctl")
os_open = forward(os, "open")
os_close = forward(os, "close")
os_read = forward(os, "read")
os_write = forward(os, "write")
platform_string = forward(infi.os_info, "get_platform_string")

LIBRARIES = []          # functions: library name -> stand-in or None
_CDLL = ctypes.CDLL


class CDLL(_CDLL):
    def __new__(cls, name=None, *args, **kwargs):
        for library in reversed(LIBRARIES):
            found = library(name)
            if found is not None:
                return found
        return _CDLL.__new__(cls)


ctypes.CDLL = CDLL
