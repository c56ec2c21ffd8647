"""C10: aggregations do not depend on how the cluster executes them.

A run runs 1-3 aggregations, generated with and without the runtime, over a table of seeded events. Each
result is collected several times, each time under another partitioning, task order, block arrival order,
retry and executor loss, and with calls to Spark that fail and are retried; every group's every aggregate is
compared with the SPL aggregate of the group's events.
"""
import datetime
import random
import common, sparkkit, splref
from common import short
from core import HarnessError


def preload():
    global E, st
    import pyspark._engine as E
    import pyspark.sql  # noqa
    import spl_transpiler as st
    import spl_transpiler.runtime.commands, spl_transpiler.runtime.functions  # noqa: imported once, not by every run


FIELDS = [("_time", "bigint"), ("k", "string"), ("k2", "bigint"), ("x", "bigint"), ("d", "double"), ("s", "string"), ("u", "bigint"), ("ts", "timestamp"), ("m n", "bigint")]
SPANS = {"1h": 3600, "15m": 900, "30s": 30, "1d": 86400, "10min": 600}
BASE = datetime.datetime(2024, 3, 4)
ODD = ["df", "class", "self", "from_", "fill_null_value", "by_", "lambda", "F", "spark", "commands", "functions", "x", "k9"]
NUM, STR = ["x", "d", "y", "u", "m n"], ["s", "k"]


def gen_rows(r):
    n = r.choice([0, 1, 2, 3, 5, 8, 13, 25, 40])
    base = r.choice([0, 1700000000])
    many = r.random() < .02
    if many:
        n = r.choice([101, 130, 256, 300])
    ts = r.sample(range(base, base + 100 + n), n) if r.random() < .7 else [base + r.randint(0, 6) for _ in range(n)]
    ks, nulls = r.choice(["a", "ab", "abc", "abcdef"]), r.choice([0, .2, .5])
    wide = r.random() < .2
    if many and not wide:
        far = r.choice([20, 200, 5000])
        return [[t, r.choice(ks), r.randint(0, 2), r.randint(-far, far) if r.random() > nulls else None, r.randint(-far, far) / 4, r.choice("pqrs") + str(r.randint(0, far)), r.randint(0, 30), None, r.randint(-9, 12)] for t in ts]

    def opt(v):
        return None if r.random() < nulls else v
    return [[t, r.choice(ks) if r.random() > .03 else None, r.randint(0, 2), opt(r.randint(-6, 9) if not wide else r.choice([10**8, -10**8, 3, 2**26, 0])),
             opt(r.randint(-20, 40) / 4), opt(r.choice(["p", "q", "r", "P", "\u00e9", "zz", "a b"])), r.randint(0, 30), opt(r.choice([1, 700, 1800, 90000]) * r.randint(0, 9) + r.choice([0, 0, .25])), opt(r.randint(-9, 12))] for t in ts]


def load(rows):
    return [tuple(None if f == "ts" and v is None else BASE + datetime.timedelta(seconds=v) if f == "ts" else v for (f, _), v in zip(FIELDS, x + [None] * (len(FIELDS) - len(x)))) for x in rows]


def names_of(q):
    return q.get("names") or [f"a{i}" for i in range(len(q["aggs"]))]


FILTERS = {"where": ("u > 4", lambda e: e["u"] > 4), "search": ("u > 4", lambda e: e["u"] > 4), "search2": ('u != 7 k="a"', lambda e: e["u"] != 7 and e["k"] == "a"),
           "glob": ("k=a*", lambda e: (e["k"] or "").startswith("a")), "or": ('(u > 6 OR k="b")', lambda e: e["u"] > 6 or e["k"] == "b"), "and": ("(u > 1 AND u != 7)", lambda e: e["u"] > 1 and e["u"] != 7)}


def gen_query(r):
    aggs = []
    for i in range(r.choice([1, 1, 2, 3, 5])):
        f = r.choice(splref.NUMERIC + splref.ANY + ["rate", "count()", "percentile", "time()"])
        if f == "percentile":
            f = r.choice(splref.PERCENTILES)
        if f == "time()":
            f = r.choice(["earliest_time()", "latest_time()"])
        if f == "rate":
            # a rate needs two moments in every group: it is asked without grouping, of a field every event has
            aggs.append([f, "u"])
        elif f.endswith("()"):
            aggs.append([f, None])
        else:
            aggs.append([f, r.choice(NUM if f in splref.NUMERIC + splref.PERCENTILES else NUM + STR)])
    by = r.choice([[], ["k"], ["k"], ["k2"], ["k", "k2"], ["k2", "k"]])
    if any(f == "rate" for f, _ in aggs):
        by = []
    node = r.choice([None, None, None, "R", "R.Sub", "R.Sub", "R.Sub.Deep"])
    cmd = "tstats" if r.random() < .3 else "stats"
    pre = r.choice([None, None, None, "where", "search", "search2", "glob", "or"])
    if r.random() < .2 and "rate" not in [f for f, _ in aggs]:
        by = [b for b in by if b == "k"] + ["ts span=" + r.choice(list(SPANS))]
        if r.random() < .5:
            by.reverse()
    names, fill = None, None
    if r.random() < .15 and len(aggs) < 4:
        names = r.sample(ODD, len(aggs))
    if cmd == "tstats":
        pre = r.choice([None, None, None, "where", "glob", "or", "and"])
        node = None if pre else node
        aggs = [[f, "x" if c == "y" else c] for f, c in aggs]
        aggs = [["count()" if f.endswith("()") else f, c] for f, c in aggs]
    opts = ""
    if r.random() < .15:
        opts = r.choice(["partitions=2", "allnum=true", 'delim=":"', "partitions=3 allnum=f delim=\", \""] if cmd == "stats" else ["summariesonly=true", "chunk_size=100", "allow_old_summaries=true", "summariesonly=t chunk_size=5"])
    runtime = r.random() < .5
    if cmd == "tstats" and r.random() < (.25 if runtime else .06):
        fill = r.choice(["nil", "n/a", "no key"])
    return dict(cmd=cmd, aggs=aggs, by=by, pre=pre, sep=r.choice([" ", ", "]) if cmd == "stats" else " ", runtime=runtime, node=node, model=r.choice(["Model", "Model", "Model.R"]), names=names, fill=fill, opts=opts,
                post=r.choice([None, None, None, "stats", "where"]), quote=r.choice(["", "", "", '"', "'"]))


def chaos(r):
    if r.random() < .15:
        return dict(max_parts=1, shuffle=False)
    return dict(max_parts=r.choice([2, 4, 8]), shuffle=r.random() < .85, retry=r.choice([0, 3, 6]), loss=r.choice([0, 4]), reeval=0, scatter=r.random() < .6)


def generate(rng, tier):
    qs = []
    for _ in range(rng.randint(1, 3 if tier == "quick" else 6)):
        q = gen_query(rng)
        q["runs"] = [[chaos(rng), rng.choice([None] * 5 + ["Connection", "Runtime"]), rng.randint(1, 4)] for _ in range(rng.randint(1, 3 if tier == "quick" else 5))]
        qs.append(q)
    if rng.random() < .003:
        # thousands of events, of which most or many have values of their own
        q = qs[0]
        q["aggs"] = [[f if f != "estdc" else "dc", c if c not in ("k", "m n") else "x"] for f, c in q["aggs"] if f != "rate"][:2] + [["dc", rng.choice(["x", "d", "s"])]]
        q.update(names=None, runs=q["runs"][:1], by=[b for b in q["by"] if b == "k"])
        return dict(rows=[], big=[rng.choice([2500, 4000]), rng.choice([1, 7919]), rng.choice([900, 5003])], queries=[q], randseed=rng.randrange(1 << 40))
    return dict(rows=gen_rows(rng), queries=qs, randseed=rng.randrange(1 << 40))


def text(q):
    names = names_of(q)

    def one(i, f, c):
        if c is None:
            return f"{f[:-2] if f == 'count()' or i % 2 else f} as {names[i]}"
        return f"{f}({fq(c)}) as {names[i]}"

    def fq(n):
        quote = q.get("quote", "") if n.isidentifier() else q.get("quote") or '"'
        return quote + n + quote
    aggs = q["sep"].join(one(i, f, c) for i, (f, c) in enumerate(q["aggs"]))
    by = f" by {', '.join(q['by'])}" if q["by"] else ""
    if q["cmd"] == "tstats":
        t = "tstats " + (q["opts"] + " " if q.get("opts") else "") + (f'fillnull_value="{q["fill"]}" ' if q.get("fill") else "") + f"{aggs} from datamodel={q.get("model") or "Model"}" + (" where " + " ".join((["nodename=" + q["node"]] if q["node"] else []) + ([FILTERS[q["pre"]][0]] if q["pre"] else [])) if q["node"] or q["pre"] else "") + by
    else:
        src = "index=main" + (" " + FILTERS[q["pre"]][0] if q["pre"] and q["pre"] != "where" else "")
        src += " | where u > 4" if q["pre"] == "where" else ""
        src += " | eval y=x+2" if any(c == "y" for _, c in q["aggs"]) else ""
        t = f"{src} | stats {q.get('opts') or ''}{' ' if q.get('opts') else ''}{aggs}{by}"
    if q["post"] == "stats":
        t += " | stats count as n"
    elif q["post"] == "where" and q["aggs"][0][0] in ("count", "count()", "dc"):
        t += f" | where {names[0]} > 1"
    return t


def groups_of(q, rows, fill=True):
    names = [f for f, _ in FIELDS]
    at = {f: i for i, f in enumerate(names)}
    ev = [dict(zip(names, r)) for r in rows]
    if q["pre"]:
        ev = [e for e in ev if FILTERS[q["pre"]][1](e)]
    for e in ev:
        e["y"] = None if e["x"] is None else e["x"] + 2
    gs = {}

    def key(e, b):
        if b.startswith("ts span="):
            return None if e["ts"] is None else bucket(e["ts"], b)
        return q["fill"] if b == "k" and e[b] is None and fill and q.get("fill") else e[b]
    for e in ev:
        gs.setdefault(tuple(key(e, b) for b in q["by"]), []).append(e)
    if not q["by"] and not gs:
        gs[()] = []
    return gs


def bucket(t, b):
    s = (t - datetime.datetime(1970, 1, 1)).total_seconds()
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=s // SPANS[b[8:]] * SPANS[b[8:]])


def plain(c):
    return c.get("max_parts") == 1 and not c.get("shuffle")


def judge(q, t, gs, cols, rows, ch, ctx, form):
    """form: the generated code is the standalone one (always without the runtime, and for result names the runtime cannot take)."""
    nb = len(q["by"])
    what = f"{t!r} ({'runtime' if q['runtime'] else 'standalone'})"
    keep = lambda k: None not in k
    if q["post"] == "stats":
        lo = len([k for k in gs if keep(k)]) if nb else 1
        hi = len(gs) if nb else 1
        if cols != ["n"] or len(rows) != 1 or not lo <= rows[0][0] <= hi:
            ctx.fail("wrong-groups", f"{what}: counts {short(rows)} groups, there are {lo}")
        return
    names = names_of(q)
    if cols != ["window" if b.startswith("ts span=") else b for b in q["by"]] + names:
        ctx.fail("wrong-columns", f"{what}: columns {cols}")
    seen = {}
    for r in rows:
        k = tuple(r[:nb])
        for i, b in enumerate(q["by"]):
            if b.startswith("ts span="):
                # the group is Spark's window of the time: [start, end)
                if k[i]["end"] - k[i]["start"] != datetime.timedelta(seconds=SPANS[b[8:]]):
                    ctx.fail("wrong-groups", f"{what}: a group of {b} reaches from {k[i]['start']} to {k[i]['end']}")
                k = k[:i] + (k[i]["start"],) + k[i + 1:]
        if k in seen:
            ctx.fail("wrong-groups", f"{what}: group {k} comes twice")
        seen[k] = r[nb:]
    filt = q["post"] == "where" and q["aggs"][0][0] in ("count", "count()", "dc")
    for k, ev in gs.items():
        if filt:
            f, c = q["aggs"][0]
            vs = [e[c] if c else 1 for e in ev]
            vs = [v for v in vs if v is not None]
            if (len(set(vs)) if f == "dc" else len(vs)) <= 1:
                if k in seen:
                    ctx.fail("wrong-groups", f"{what}: group {k} does not satisfy the filter")
                continue
        if k not in seen:
            if keep(k):
                ctx.fail("wrong-groups", f"{what}: group {k} with {len(ev)} events is missing")
            continue
        for i, (f, c) in enumerate(q["aggs"]):
            got = seen[k][i]
            col = [1 if c is None else e[c] for e in ev]
            if f == "rate" and len({e["_time"] for e in ev}) < 2:
                continue
            v = splref.agg_verdict(f.rstrip("()"), col, [e["_time"] for e in ev], got, ordered=plain(ch) and not (form and any(g in ("earliest", "latest") for g, _ in q["aggs"])))
            if v is None:
                continue
            msg = f"{what}: group {k}: {f}({c or ''}) is {short(got)} instead of {short(v[1])} over {len(ev)} events, on " + ("one partition" if plain(ch) else f"schedule {ch}")
            if form and not plain(ch):
                if v[0] == "pick" and f in ("earliest", "latest"):
                    ctx.finding("standalone-earliest-latest-pick", msg)
                    continue
            if form and v[0] == "order" and f == "values":
                ctx.finding("standalone-values-order", msg)
                continue
            ctx.fail("wrong-aggregate", msg)
    extra = [k for k in seen if k not in gs]
    if extra:
        ctx.fail("wrong-groups", f"{what}: there are no events of group {extra[0]}")


def run(scn, ctx):
    common.seed_rust(scn["randseed"])
    E.SIM.reset(ctx.choices, ctx)
    source = scn["rows"]
    if scn.get("big"):
        n, step, mod = scn["big"]
        source = [[1700000000 + i, "ab"[i % 2], i % 3, i * step % mod - 50, i * step % mod / 4, f"s{i * step % mod}", i % 31, None, i % 13] for i in range(n)]
    rows = load(source)
    plan = dict(exc=None, at=0, n=0, fired=False)

    def hook(op, detail):
        if plan["exc"] and not plan["fired"]:
            plan["n"] += 1
            if plan["n"] >= plan["at"]:
                plan["fired"] = True
                ctx.fault("spark_" + op + "_" + plan["exc"])
                raise {"Connection": ConnectionRefusedError, "Runtime": RuntimeError}[plan["exc"]]("lost")
    E.SIM.hook = hook
    n = dict(ok=0, groups=0, refused=0)
    for q in scn["queries"]:
        E.SIM.tables.clear()
        if q["cmd"] == "stats":
            table = "main"
        else:
            # the node is named from the root of the model's dataset, which the table's name has or implies
            model, node = q.get("model") or "Model", q["node"] or ""
            table = ".".join([model] + node.split(".")[1:])
            for other in ("Model", "Model.R", "Model." + node, "Model.R." + node):
                E.SIM.tables[other] = (FIELDS, (rows + rows)[1:])
        E.SIM.tables[table] = (FIELDS, rows)
        t = text(q)
        gs, bare = groups_of(q, rows), groups_of(q, rows, False)
        if any(f == "rate" for f, _ in q["aggs"]) and any(len({e["_time"] for e in ev}) < 2 for ev in gs.values()):
            n["refused"] += 1
            continue
        code = st.convert_spl_to_pyspark(t, allow_runtime=q["runtime"], format_code=False)
        for ch, exc, at in q["runs"]:
            E.SIM.chaos = dict(dict(max_parts=1, shuffle=False, retry=0, loss=0, reeval=0), **ch)
            plan.update(exc=exc, at=at, n=0, fired=False)
            try:
                out = None
                try:
                    df = sparkkit.execute(code)
                    out = list(df.columns), [list(r) for r in df.collect()]
                except HarnessError:
                    raise
                except Exception as e:
                    if not plan["fired"]:
                        ctx.fail("failed", f"{t!r} ({'runtime' if q['runtime'] else 'standalone'}): {type(e).__name__}: {short(e)}")
                if plan["fired"]:
                    if out is not None:
                        ctx.fail("failure-hidden", f"{t!r}: a call to Spark failed, yet it returns {short(out)}")
                    plan["exc"] = None
                    df = sparkkit.execute(code)
                    out = list(df.columns), [list(r) for r in df.collect()]
            finally:
                plan["exc"] = None
            form = not q["runtime"] or bool(q.get("names")) and "functions.stats." not in code
            if form and q.get("fill") and len(set(gs) ^ set(bare)) and q["fill"] not in code:
                # its groups are those of the events without the option
                ctx.finding("standalone-tstats-fillnull", f"{t!r} (standalone): the code has no {q['fill']!r} to stand in for a null group")
                judge(q, t, bare, *out, ch, ctx, form)
            else:
                judge(q, t, gs, *out, ch, ctx, form)
            ctx.log(t, q["runtime"], ch, len(out[1]))
            n["ok"] += 1
            n["groups"] += len(out[1])
    for k, v in n.items():
        ctx.probe("queries_" + k, v)
    ctx.state([text(q) for q in scn["queries"]], ctx.choices.log[:200])
    ctx.nontrivial = n["groups"] > 0 and any(not plain(c[0]) for q in scn["queries"] for c in q["runs"])
    ctx.sample = dict(events=len(rows), queries=[dict(query=text(q), runtime=q["runtime"], schedules=[c[0] for c in q["runs"]]) for q in scn["queries"][:2]])
