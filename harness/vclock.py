"""The clock and the time zone seen by the code under test."""
import ctypes
import os
import time

_lib = ctypes.CDLL(None)
if not hasattr(_lib, "vp_set"):
    raise SystemExit("clock shim not preloaded")
_lib.vp_set.argtypes = [ctypes.c_longlong]


def set_ms(ms):
    _lib.vp_set(int(ms) * 1_000_000)


def clear():
    _lib.vp_clear()


def set_tz(tz):
    os.environ["TZ"] = tz or "UTC"
    time.tzset()
