"""C11: row-wise pipelines on a simulated cluster against an executable reference."""
import common, pipekit, splpipe as P
from common import short


def preload():
    global E, st
    import pyspark._engine as E
    import pyspark.sql  # noqa
    import spl_transpiler as st
    import spl_transpiler.runtime.commands, spl_transpiler.runtime.functions  # noqa: imported once, not by every run


def generate(rng, tier):
    rows = P.gen_trows(rng)
    qs = []
    for _ in range(rng.randint(1, 2 if tier == "quick" else 4)):
        runtime = rng.random() < .5
        if rng.random() < .06:
            qs.append(gen_make(rng, runtime, tier))
            continue
        first = P.Gen(rng, runtime=runtime).sterm(2) if rng.random() < .5 else None
        b = P.Build(rng, rows, P.TFIELDS, P.TTYPES, runtime=runtime)
        if first:
            b.add(["search", first])
        stages = b.grow(rng.randint(1, 4 if tier == "quick" else 7), P.TKINDS).stages
        if b.types.get("j") == "s" and rng.random() < .04:
            b.add(["spath", "j", "b.c", None])
        qs.append(dict(first=bool(first), stages=stages, runtime=runtime, runs=pipekit.gen_runs(rng, tier)))
    return dict(rows=rows, queries=qs, randseed=rng.randrange(1 << 40))


NULLS = ["_raw", "host", "source", "sourcetype"]


def made(m):
    """Fields and rows of a makeresults command (Spark's own id is left out of the results by the last stage)."""
    now = round((P.NOW - P.BASE).total_seconds() * 1000)
    if not m["annotate"]:
        return [("_time", "timestamp")], [[now] for _ in range(m["count"])]
    fields = [("_time", "timestamp")] + [(n, "string") for n in NULLS + ["splunk_server", "splunk_server_group"]]
    return fields, [[now, None, None, None, None, m["server"] or "local", m["group"]] for _ in range(m["count"])]


def gen_make(rng, runtime, tier):
    m = dict(count=rng.choice([0, 1, 2, 3, 7]), annotate=rng.random() < .6, server=rng.choice([None, "srv", "a b", 'x"y']), group=rng.choice([None, "g0", "two words", "it's"]))
    fields, rows = made(m)
    b = P.Build(rng, rows, fields, {f: "t" if f == "_time" else "s" for f, _ in fields}, solid=("_time",), runtime=runtime)
    for n in NULLS + ([] if m["group"] else ["splunk_server_group"]):
        b.g.types.pop(n, None)
    b.grow(rng.randint(1, 3), ["where", "eval", "eval", "eval", "bin", "fillnull", "convert", "rename"])
    names = list(b.g.types)
    if m["annotate"] and not any(s[0] in ("rename", "fillnull") for s in b.stages) and rng.random() < .5:
        names += NULLS
    rng.shuffle(names)
    b.add(["table", names, " "])
    return dict(make=m, stages=b.stages, runtime=runtime, runs=pipekit.gen_runs(rng, tier))


def text(q):
    st = q["stages"]
    head = "index=main"
    if q.get("make"):
        m = q["make"]
        head = f"makeresults count={m['count']}" + (" annotate=true" if m["annotate"] else "")
        if m["annotate"]:
            head += "".join(f" {k}={P.etext(['s', v])}" for k, v in (("splunk_server", m["server"]), ("splunk_server_group", m["group"])) if v)
    if q.get("first") and st and st[0][0] == "search":
        t = P.stext(st[0][1])
        head += f" ({t})" if st[0][1][0] == "or" else " " + t
        st = st[1:]
    return " | ".join([head] + [P.text(s) for s in st])


def run(scn, ctx):
    common.seed_rust(scn["randseed"])
    cl = pipekit.Cluster(E, ctx)
    rows = P.load(scn["rows"], P.TFIELDS)
    n = dict(ok=0, unclear=0, events=0)
    for q in scn["queries"]:
        E.SIM.tables.clear()
        E.SIM.tables["main"] = (P.TFIELDS, rows)
        try:
            if q.get("make"):
                fields, base = made(q["make"])
                evs, cols, _ = P.run_ref(q["stages"], base, fields, {f: "t" if f == "_time" else "s" for f, _ in fields})
            else:
                evs, cols, _ = P.run_ref(q["stages"], scn["rows"], P.TFIELDS, P.TTYPES)
        except (P.Unclear, KeyError):
            n["unclear"] += 1
            continue
        t = text(q)
        what = f"{t!r} ({'runtime' if q['runtime'] else 'standalone'})"
        try:
            code = st.convert_spl_to_pyspark(t, allow_runtime=q["runtime"], format_code=False)
        except Exception as e:
            ctx.fail("refused", f"{what}: {short(common.err(e)[2], 300)}")
        for run_ in q["runs"]:
            gcols, grows = cl.collect(code, run_, what)
            if sorted(gcols) != sorted(cols) or (q["stages"] and q["stages"][-1][0] == "table" and gcols != cols):
                ctx.fail("wrong-fields", f"{what}: fields {gcols} instead of {cols}")
            d = pipekit.diff_rows(pipekit.table_from(evs, gcols), grows, gcols)
            if d:
                ctx.fail("wrong-events", f"{what}: {d}; on " + ("one partition" if pipekit.plain(run_[0]) else f"schedule {run_[0]}"))
            ctx.log(t, q["runtime"], run_, len(grows))
            n["ok"] += 1
            n["events"] += len(grows)
    for k, v in n.items():
        ctx.probe("pipelines_" + k, v)
    ctx.state([text(q) for q in scn["queries"]], ctx.choices.log[:200])
    ctx.nontrivial = n["events"] > 0 and any(not pipekit.plain(c[0]) for q in scn["queries"] for c in q["runs"])
    ctx.sample = dict(events=len(rows), queries=[dict(query=text(q), runtime=q["runtime"], schedules=[c[0] for c in q["runs"]]) for q in scn["queries"][:2]])
