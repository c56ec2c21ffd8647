"""Workload shrinking moves per check: smaller scenarios to try, most aggressive first."""


def drop_each(xs):
    n = len(xs)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield xs[:i] + xs[i + k:]
        k //= 2


def generic(scn, keys, minlen=1):
    for key in keys:
        xs = scn.get(key)
        if isinstance(xs, list):
            for ys in drop_each(xs):
                if len(ys) >= minlen:
                    yield dict(scn, **{key: ys})


def shorten_queries(scn, key="queries"):
    for i, q in enumerate(scn.get(key, [])):
        parts = q.split(" | ")
        for j in range(len(parts)):
            if len(parts) > 1:
                yield dict(scn, **{key: scn[key][:i] + [" | ".join(parts[:j] + parts[j + 1:])] + scn[key][i + 1:]})
        words = q.split(" ")
        if len(words) <= 40:
            for j in range(len(words)):
                if len(words) > 1:
                    yield dict(scn, **{key: scn[key][:i] + [" ".join(words[:j] + words[j + 1:])] + scn[key][i + 1:]})


def c01(scn):
    yield from generic(scn, ["ops"])
    yield from shorten_queries(scn)


def c02(scn):
    yield from generic(scn, ["threads", "reenter", "faults"], 0)
    for i, ops in enumerate(scn["threads"]):
        for o2 in drop_each(ops):
            yield dict(scn, threads=scn["threads"][:i] + [o2] + scn["threads"][i + 1:])
    yield from shorten_queries(scn)


def c03(scn):
    yield from generic(scn, ["ops"])
    for i, op in enumerate(scn["ops"]):
        if op[3]:
            yield dict(scn, ops=scn["ops"][:i] + [op[:3] + [None]] + scn["ops"][i + 1:])
    yield from shorten_queries(scn)


TABLE = dict(C01=c01, C02=c02, C03=c03)


LISTS = {"ops", "threads", "queries", "rows", "aggs", "runs", "sources", "stages", "conds", "multi"}
DICTS = {"tables"}


def nested(x):
    """Smaller versions of a scenario: elements dropped from its lists of steps, threads, queries, rows
    and the like, wherever they are nested, longest runs first."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "choices":
                continue
            if k in LISTS and isinstance(v, list):
                for ys in drop_each(v):
                    if ys or k in ("conds", "threads"):
                        yield dict(x, **{k: ys})
                if k == "threads" and v:
                    yield dict(x, threads=None)
                    for i, t in enumerate(v):
                        for ys in drop_each(t):
                            yield dict(x, threads=v[:i] + [ys] + v[i + 1:])
            if k in DICTS and isinstance(v, dict):
                for n in v:
                    yield dict(x, **{k: {m: w for m, w in v.items() if m != n}})
            for w in nested(v):
                yield dict(x, **{k: w})
    elif isinstance(x, list) and len(x) < 200:
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)):
                for w in nested(v):
                    yield x[:i] + [w] + x[i + 1:]


def candidates(check, scn):
    yield from TABLE.get(check, nested)(scn)
