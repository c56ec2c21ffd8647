"""Helpers shared by the checks: outcomes of conversions, the formatter seam."""
import ctypes, sys, threading

_lib = ctypes.CDLL(None)


def seed_rust(seed):
    """Seeds getrandom(), from which the Rust side draws the keys of its hash maps (once per thread)."""
    _lib.shim_rand(1, ctypes.c_uint64(seed & (2**64 - 1)))


def rust_rand_calls():
    _lib.shim_rand_calls.restype = ctypes.c_long
    return _lib.shim_rand_calls()


def err(e):
    m = str(e).split("\n\nStack backtrace")[0].split("Stack backtrace")[0].strip()
    return ["err", type(e).__name__, m]


def outcome(fn, *a, **k):
    try:
        return ["ok", fn(*a, **k)]
    except Exception as e:
        return err(e)
    except BaseException as e:
        if type(e).__name__ == "HarnessError":
            raise
        return err(e)


class FormatterGap(Exception):
    pass


class BlackSeam:
    """Owns the boundary between the transpiler and the code formatter.

    The real formatter does the work; `before` and `after` hooks run at each entry and exit (to switch
    threads, re-enter the transpiler, or raise).
    """

    def __init__(self):
        import black
        self.black = black
        self.real = {n: getattr(black, n) for n in ("format_str", "FileMode", "Mode", "format_file_contents", "format_cell")}
        self.hooks = []
        self.calls = 0
        self.memo = {}
        # warm the formatter's own lazily built tables, which every forked run would otherwise rebuild
        for code in ("df_1 = commands.search(None, x=F.lit('a'), y=[1, 2,],)\ndf_1\n", "spark.table('a').where((F.col('x') == F.lit(3)),).select(F.col('a'),)"):
            self.real["format_str"](code, mode=self.real["FileMode"]())
        try:
            self.real["format_str"]("x = (", mode=self.real["FileMode"]())
        except Exception:
            pass
        for n in self.real:
            setattr(black, n, self._wrap(n))

    def _wrap(self, name):
        real = self.real[name]
        seam = self

        if isinstance(real, type):
            class W(real):  # still a class, so that isinstance and subclassing keep working
                def __new__(cls, *a, **k):
                    seam.calls += 1
                    for h in list(seam.hooks):
                        h("before", name, a, k)
                    o = real(*a, **k)
                    for h in list(seam.hooks):
                        h("after", name, a, k)
                    return o
            W.__name__ = real.__name__
            return W

        def w(*a, **k):
            seam.calls += 1
            for h in list(seam.hooks):
                h("before", name, a, k)
            if name == "format_str":
                key = (a, repr(sorted(k.items(), key=lambda x: x[0])))
                try:
                    hit = seam.memo.get(key)
                except TypeError:
                    key = hit = None
                if hit is None:
                    try:
                        hit = (True, real(*a, **k))
                    except Exception as e:
                        hit = (False, e)
                    if key is not None:
                        seam.memo[key] = hit
                ok, r = hit
                if not ok:
                    raise r
            else:
                r = real(*a, **k)
            for h in list(seam.hooks):
                h("after", name, a, k)
            return r
        w.__name__ = name
        w.__wrapped__ = real
        return w


def in_thread(fn):
    """Runs fn in a fresh thread (the Rust side draws new hash keys per thread)."""
    box = []

    def body():
        try:
            box.append(("ok", fn()))
        except BaseException as e:
            box.append(("exc", e))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    k, v = box[0]
    if k == "exc":
        raise v
    return v


def short(x, n=400):
    x = str(x)
    return x if len(x) <= n else x[:n] + "..."
