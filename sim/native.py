"""ctypes face of shim.so (see shim.c)."""

import ctypes
import os
import struct

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("SIM_BUILD") or os.path.join(os.path.dirname(HERE), ".build")
SHIM = os.path.join(BUILD, "shim.so")
GITBIN = os.path.join(BUILD, "gitbin")

_lib = None
_capsule = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(SHIM)
        i64, u64 = ctypes.c_int64, ctypes.c_uint64
        _lib.sim_fs_attach.argtypes = [ctypes.c_int, ctypes.c_char_p]
        _lib.sim_fs_mark.argtypes = [ctypes.c_char_p]
        _lib.sim_clock_on.argtypes = [u64, i64, i64, i64, i64, i64]
        _lib.sim_clock_jump_at.argtypes = [i64, i64]
        _lib.sim_clock_advance.argtypes = [i64]
        _lib.sim_clock_jump.argtypes = [i64]
        for f in ("mono", "calls", "jumped", "backward"):
            getattr(_lib, "sim_clock_" + f).restype = i64
        _lib.sim_entropy_on.argtypes = [u64, ctypes.c_int]
        _lib.sim_alloc_poison.argtypes = [ctypes.c_int, u64]
        _lib.sim_alloc_fail.argtypes = [i64, i64]
        for f in ("count", "failed", "poisoned"):
            getattr(_lib, "sim_alloc_" + f).restype = i64
        _lib.sim_alloc_handler.restype = ctypes.c_void_p
    return _lib


def preloaded() -> bool:
    return "shim.so" in os.environ.get("LD_PRELOAD", "")


class Reply:
    GO, FAIL, SHORT, DIE, TORN = range(5)

    @staticmethod
    def pack(action=0, err=0, n=0) -> bytes:
        return struct.pack("=iiq", action, err, n)


def install_alloc_handler():
    """route numpy's data allocations of this thread's context through shim.so"""
    global _capsule
    import numpy._core._multiarray_umath as mu

    api = ctypes.pythonapi
    api.PyCapsule_GetPointer.restype = ctypes.c_void_p
    api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    api.PyCapsule_New.restype = ctypes.py_object
    api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    table = ctypes.cast(
        api.PyCapsule_GetPointer(mu._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p)
    )
    set_handler = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])
    _capsule = api.PyCapsule_New(lib().sim_alloc_handler(), b"mem_handler", None)
    set_handler(_capsule)
