"""The storage seam: plans faults and concurrent-writer actions for libc calls below one folder."""
import ctypes, errno, os

L = ctypes.CDLL(None)
L.shim_plan.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long]
L.shim_log.restype = ctypes.c_char_p
L.shim_ops.restype = ctypes.c_long
OPEN, STAT, SCAN, READDIR, READ = 1, 2, 4, 8, 16
CLASS = dict(open=OPEN, stat=STAT, scan=SCAN, readdir=READDIR, read=READ, any=31)
FAIL, SHORT, RENAME, UNLINK, WRITE, MKDIR, RMDIR = range(1, 8)


def begin(prefix, dirseed):
    L.shim_prefix(os.fsencode(prefix))
    L.shim_clear()
    L.shim_dirseed(ctypes.c_uint64(dirseed))


def fail(cls, nth, count, err):
    return L.shim_plan(CLASS[cls], nth, count, FAIL, getattr(errno, err), None, None, None, 0)


def short(nth, count, n):
    return L.shim_plan(READ, nth, count, SHORT, n, None, None, None, 0)


def act(cls, nth, action, a, b=None, data=None):
    """A concurrent writer's action, executed once right before the nth operation of this class."""
    return L.shim_plan(CLASS[cls], nth, 1, action, 0, os.fsencode(a), os.fsencode(b) if b else None, data, len(data) if data is not None else 0)


def arm(on):
    L.shim_arm(1 if on else 0)


def fired(i):
    return L.shim_fired(i)


def ops():
    return L.shim_ops()


def log():
    return L.shim_log().decode("utf-8", "replace")
