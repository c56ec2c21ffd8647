"""Small executable reference for SPL aggregates and pipelines, used as the oracle of C10 to C15."""
from fractions import Fraction
import math
import re


def close(a, b, scale=1.0):
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str) or isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), scale, 1.0)


def exact(a, b):
    """Equality of values that are picked, not computed."""
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    return close(a, b, 0)


PERCENTILES = [f + str(n) for f in ("percentile", "exactperc", "upperperc") for n in (1, 5, 25, 50, 75, 90, 95, 99)]
NUMERIC = ["sum", "avg", "mean", "range", "var", "varp", "stdev", "stdevp", "sumsq", "median"]
ANY = ["count", "min", "max", "dc", "distinct_count", "values", "list", "earliest", "latest", "earliest_time", "latest_time", "mode", "first", "last", "estdc"]


def moments(vs):
    fs = [Fraction(v) for v in vs]
    m = sum(fs) / len(fs)
    return m, sum((f - m) ** 2 for f in fs)


def agg_verdict(fn, col, times, got, ordered=True):
    """None when `got` is the SPL aggregate fn of the column (list of values of one group, in event order),
    else what is wrong: ('value'|'order'|'pick', expected). ordered: the events' order is still the table's."""
    vs = [v for v in col if v is not None]
    ts = [t for v, t in zip(col, times) if v is not None]

    def want(*alts):
        return None if any(exact(got, a) for a in alts) else ("value", alts[0])
    if fn == "count":
        return want(len(vs))
    if fn in ("dc", "distinct_count"):
        return want(len(set(vs)))
    if fn == "estdc":
        # an estimate: some error is what is asked for
        w = len(set(vs))
        ok = isinstance(got, int) and not isinstance(got, bool) and abs(got - w) <= (1 + (.15 if w < 50 else .25) * w if w > 1 else 0)
        return None if ok else ("value", w)
    if fn in ("values", "list"):
        w = sorted(set(vs)) if fn == "values" else vs
        if not vs:
            return want(None, [])
        if not isinstance(got, (list, tuple)) or sorted(map(repr, map(_n, got))) != sorted(map(repr, map(_n, w))):
            return "value", w
        if fn == "values" and not exact(list(got), w) and not exact(list(got), sorted(w, key=str)):
            return "order", w
        return None
    if not vs:
        return want(None)
    if fn in ("min", "max"):
        return want(min(vs) if fn == "min" else max(vs))
    if fn == "mode":
        top = max(vs.count(v) for v in vs)
        return want(*[v for v in vs if vs.count(v) == top])
    if fn in ("first", "last"):
        w = vs[0] if fn == "first" else vs[-1]
        if exact(got, w):
            return None
        return None if not ordered and any(exact(got, v) for v in vs) else ("value", w)
    if fn in ("earliest", "latest", "earliest_time", "latest_time"):
        t = min(ts) if fn.startswith("earliest") else max(ts)
        if fn.endswith("_time"):
            return want(t)
        alts = [v for v, u in zip(vs, ts) if u == t]
        if any(exact(got, a) for a in alts):
            return None
        return ("pick" if any(exact(got, v) for v in vs) else "value"), alts[0]
    if fn == "rate":
        lo, hi = min(ts), max(ts)
        a = [v for v, u in zip(vs, ts) if u == lo]
        b = [v for v, u in zip(vs, ts) if u == hi]
        alts = [float(Fraction(y) - Fraction(x)) / (hi - lo) for x in a for y in b]
        return None if any(close(got, w) for w in alts) else ("value", alts[0])
    n = len(vs)
    if fn == "median" or fn.rstrip("0123456789") in ("percentile", "exactperc", "upperperc"):
        # nearest rank, interpolated or the upper of two: SPL leaves open which of them it is
        p = Fraction(1, 2) if fn == "median" else Fraction(int(re.search("[0-9]+$", fn).group()), 100)
        xs = sorted(vs)
        ranks = [math.ceil(p * n) - 1, math.floor(p * (n - 1)), math.ceil(p * (n - 1)), math.floor(p * n)]
        lo, hi = xs[max(min(ranks), 0)], xs[min(max(ranks), n - 1)]
        ok = isinstance(got, (int, float)) and not isinstance(got, bool) and (lo <= got <= hi or close(got, lo) or close(got, hi))
        return None if ok else ("value", (lo, hi))
    m, ss = moments(vs)
    big = float(max(abs(Fraction(v)) for v in vs)) ** 2
    if fn == "sum":
        w, sc = float(sum(map(Fraction, vs))), 1
    elif fn in ("avg", "mean"):
        w, sc = float(m), 1
    elif fn == "range":
        w, sc = max(vs) - min(vs), 1
    elif fn == "sumsq":
        w, sc = float(sum(Fraction(v) ** 2 for v in vs)), 1
    elif fn in ("var", "varp", "stdev", "stdevp"):
        if n == 1 and fn in ("var", "stdev"):
            return None if got is None or close(got, 0) else ("value", None)
        w = float(ss / (n if fn.endswith("p") else n - 1))
        if fn.startswith("stdev"):
            if isinstance(got, (int, float)) and close(got * got, w, big):
                return None if got >= 0 else ("value", math.sqrt(w))
            return "value", math.sqrt(w)
        sc = big
    else:
        raise KeyError(fn)
    return None if got is not None and not isinstance(got, (str, list, tuple)) and close(got, w, sc) else ("value", w)


def _n(v):
    return ("n", float(v)) if isinstance(v, (int, float)) and not isinstance(v, bool) else v
