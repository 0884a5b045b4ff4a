"""
Access to the fault injection shim (shim/fi.c), which run.sh preloads.
"""
import ctypes, errno, os

KINDS = ["write", "openw", "openr", "read", "link", "mkdir", "rename", "unlink", "utime", "sendfile",
         "close", "chmod", "opendir", "truncate", "rmdir"]
BIT = {k: 1 << i for i, k in enumerate(KINDS)}
ERR, SHORT, PERSIST, EXIT = 0, 1, 2, 3
E = errno
ERRNOS = {
    "write": [E.EIO, E.ENOSPC, E.EDQUOT], "openw": [E.EACCES, E.ENOSPC, E.EMFILE, E.EIO],
    "openr": [E.EACCES, E.EMFILE, E.EIO], "read": [E.EIO], "link": [E.EXDEV, E.EPERM, E.EMLINK, E.EIO],
    "mkdir": [E.EACCES, E.ENOSPC], "rename": [E.EACCES, E.EIO], "unlink": [E.EACCES, E.EIO],
    "utime": [E.EPERM, E.EIO], "sendfile": [E.EIO, E.ENOSPC, E.EINVAL], "close": [E.EIO, E.ENOSPC],
    "chmod": [E.EPERM], "opendir": [E.EACCES, E.EIO, E.EMFILE], "truncate": [E.EIO],
    "rmdir": [E.EACCES, E.EIO]}
SHORTABLE = ("write", "read", "sendfile")
MUTATING = ["write", "openw", "link", "mkdir", "rename", "unlink", "utime", "sendfile", "close", "chmod",
            "truncate", "rmdir"]

_lib = None
def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.fi_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_uint]
        _lib.fi_disarm.restype = ctypes.c_long
        _lib.fi_fired.restype = ctypes.c_long
        _lib.fi_kind.restype = ctypes.c_long
        _lib.fi_what.restype = ctypes.c_char_p
    return _lib


def mask(kinds):
    m = 0
    for k in kinds:
        m |= BIT[k]
    return m


def arm(prefix, k, mode, err, kinds):
    lib().fi_arm(os.fsencode(prefix), k, mode, err, mask(kinds))


def disarm():
    return lib().fi_disarm()


def fired():
    return lib().fi_fired()


def counts():
    return {k: lib().fi_kind(i) for i, k in enumerate(KINDS)}
