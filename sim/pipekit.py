"""Running generated pipelines on the simulated cluster, with failing calls and a schedule per collection."""
import sparkkit
from common import short
from core import HarnessError

EXC = {"Connection": ConnectionRefusedError, "Runtime": RuntimeError, "OSError": OSError, "Memory": MemoryError}


def chaos(r, reeval=True):
    if r.random() < .12:
        return dict(max_parts=1, shuffle=False, reeval=0)
    return dict(max_parts=r.choice([2, 4, 8]), shuffle=r.random() < .85, retry=r.choice([0, 3, 6]), loss=r.choice([0, 4]), reeval=r.choice([0, 2, 4]) if reeval else 0, scatter=r.random() < .6)


def plain(c):
    return c.get("max_parts") == 1 and not c.get("shuffle")


def gen_runs(r, tier):
    return [[chaos(r), r.choice([None] * 6 + list(EXC)), r.randint(1, 4)] for _ in range(r.randint(1, 2 if tier == "quick" else 4))]


class Cluster:
    """The simulated Spark session with one planned failure at a time."""

    def __init__(self, E, ctx):
        self.E, self.ctx = E, ctx
        self.exc, self.at, self.n, self.fired = None, 0, 0, False
        E.SIM.reset(ctx.choices, ctx)
        E.SIM.hook = self.hook

    def hook(self, op, detail):
        if self.exc and not self.fired:
            self.n += 1
            if self.n >= self.at:
                self.fired = True
                self.ctx.fault("spark_" + op + "_" + self.exc)
                raise EXC[self.exc]("lost")

    def attempt(self, code, run, what):
        """Runs the code under one schedule: (fields, rows), or the exception it raises. A failing Spark call must
        surface; the code is then run again without."""
        ch, exc, at = run
        self.E.SIM.chaos = dict(dict(max_parts=1, shuffle=False, retry=0, loss=0, reeval=0), **ch)
        self.exc, self.at, self.n, self.fired = exc, at, 0, False

        def go():
            try:
                df = sparkkit.execute(code)
                # a rex keeps the text of a group without a name in a column named by its number
                at = [i for i, c in enumerate(df.columns) if not c.isdigit()]
                rows = df.collect()
                return [df.columns[i] for i in at], [[sparkkit.canon(r[i]) for i in at] for r in rows]
            except HarnessError:
                raise
            except Exception as e:
                return e
        try:
            out = go()
            if self.fired:
                if not isinstance(out, Exception):
                    self.ctx.fail("failure-hidden", f"{what}: a call to Spark failed, yet it returns {short(out)}")
                self.exc = None
                out = go()
        finally:
            self.exc = None
        return out

    def collect(self, code, run, what):
        out = self.attempt(code, run, what)
        if isinstance(out, Exception):
            self.ctx.fail("failed-after-recovery" if self.fired else "failed", f"{what}: {type(out).__name__}: {short(out, 300)}")
        return out


def table_from(evs, cols):
    return [[sparkkit.canon(e[c]) for c in cols] for e in evs]


def near(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and a[0] == b[0] == "num" and isinstance(a[1], float) and isinstance(b[1], float):
        return abs(a[1] - b[1]) <= 1e-7 * max(1.0, abs(a[1]), abs(b[1]))
    return a == b


def diff_rows(want, got, cols, key="id"):
    """What differs between two bags of rows (None: nothing). Rows are matched by their key column when there is one."""
    if key in cols:
        i = cols.index(key)
        w, g = {repr(r[i]): r for r in want}, {}
        for r in got:
            if repr(r[i]) in g:
                return f"event {key}={r[i]} comes more than once"
            g[repr(r[i])] = r
        for k in w:
            if k not in g:
                return f"event {short(dict(zip(cols, w[k])))} is missing"
        for k in g:
            if k not in w:
                return f"event {short(dict(zip(cols, g[k])))} should not be there"
        for k in w:
            for c, a, b in zip(cols, w[k], g[k]):
                if not near(a, b):
                    return f"{c} is {show(b)} instead of {show(a)} in event {show(w[k][i])}"
        return None
    w, g = sparkkit.bag(want), sparkkit.bag(got)
    if len(w) != len(g):
        return f"{len(g)} rows instead of {len(w)}: {short(g)} instead of {short(w)}"
    for a, b in zip(w, g):
        if not all(near(x, y) for x, y in zip(a, b)):
            return f"row {short(b)} instead of {short(a)}"
    return None


def show(v):
    return repr(v[1]) if isinstance(v, tuple) and v[0] in ("num", "bool") else repr(v)
