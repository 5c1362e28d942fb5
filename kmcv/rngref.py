"""Number sequences of the C++ standard engines (helpers/rngref.cpp, built with the system compiler)."""
import ctypes
import os

KINDS = {"MT": 0, "MINSTD": 1, "RANLUX24": 2, "RANLUX48": 3}
_lib = None


def draws(kind, seed, n):
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["KMCV_HELPER_RNGREF"])
    buf = (ctypes.c_double * n)()
    _lib.rngref(KINDS[kind], ctypes.c_int(seed), buf, n)
    return list(buf)
