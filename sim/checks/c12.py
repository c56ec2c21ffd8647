"""C12: sorted and limited results on a simulated cluster against an executable reference."""
import common, pipekit, splpipe as P, sparkkit
from common import short


def preload():
    global E, st
    import pyspark._engine as E
    import pyspark.sql  # noqa
    import spl_transpiler as st
    import spl_transpiler.runtime.commands, spl_transpiler.runtime.functions  # noqa: imported once, not by every run


PRE = ["search", "where", "where", "eval", "fields", "rename", "fillnull", "bin", "addtotals"]
POST = ["where", "eval", "fields", "table", "rename", "rex", "bin", "convert", "addtotals"]


def sort_stage(r, b):
    """A sort by fields every event has; the last key makes the order total."""
    full = [c for c in b.cols if c != "id" and all(e[c] is not None for e in b.evs) and c.isidentifier() and c not in ("d", "desc") and b.types[c] != "l"]
    # text that looks like a number sorts as a number in SPL
    full = [c for c in full if b.types[c] != "s" or all(e[c] and not e[c][0].isdigit() and e[c].strip() == e[c] for e in b.evs)]
    keys = r.sample(full, min(len(full), r.choice([0, 1, 1, 2])))
    if "id" in b.cols:
        keys.append("id")
    if not keys or (len({tuple(e[k] for k in keys) for e in b.evs}) < len(b.evs)):
        return None
    return ["sort", r.choice([None, None, 0, 1, 2, 3, 5, 100, r.choice([257, 300, 65537, 65540, 2147483647])]), [[r.choice(["", "-", "+", "-"]), k] for k in keys]] + [r.random() < .15, r.choice(["", "", "limit="])]


def generate(rng, tier):
    rows = P.gen_trows(rng, rng.choice([0, 1, 2, 3, 5, 8, 13, 25, 40]))
    ids = rng.sample(range(1, 100), len(rows))
    rows = [[i] + r[1:] for i, r in zip(ids, rows)]
    qs = []
    for _ in range(rng.randint(1, 2 if tier == "quick" else 4)):
        runtime = rng.random() < .5
        b = P.Build(rng, rows, P.TFIELDS, P.TTYPES, runtime=runtime)
        b.grow(rng.choice([0, 0, 1, 2]), PRE)
        free = None  # position of a head without sort
        final = None
        if rng.random() < .75:
            for _ in range(rng.choice([1, 1, 1, 2])):
                b.add(sort_stage(rng, b))
                if rng.random() < .4:
                    b.add(P.head(rng, rng.choice([1, 2, 3, 5, 50, rng.choice([257, 65537, 65540])])))
                if rng.random() < .5:
                    b.grow(1, POST)
            if rng.random() < .2 and {"id", "u"} <= set(b.cols) and b.types["u"] in "in":
                final = "stats"
        else:
            free = len(b.stages)
            b.stages.append(P.head(rng, rng.choice([1, 2, 3, 5, 50, rng.choice([257, 65537, 65540])])))
            b.grow(rng.choice([0, 0, 1]), ["eval", "fields", "rex"])
        qs.append(dict(stages=b.stages, free=free, final=final, runtime=runtime, runs=pipekit.gen_runs(rng, tier)))
    if rng.random() < .02:
        # around the default limit
        sort = ["sort", rng.choice([None, None, 0, 9999, 10000, 10001]), [[rng.choice(["", "-"]), "id"]], False, rng.choice(["", "limit="])]
        q = dict(stages=[sort], free=None, final="stats", runtime=rng.random() < .5, runs=[[dict(max_parts=rng.choice([1, 4]), shuffle=False), None, 1]])
        return dict(rows=[], big=[rng.choice([9999, 10000, 10001, 10007]), rng.choice([1, 3, 9973])], queries=[q], randseed=rng.randrange(1 << 40))
    if rng.random() < .03:
        # a few hundred events, limits around powers of two and the number of events
        n = rng.choice([101, 129, 200, 256, 257, 300, 513])
        lim = [1, 10, 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 501, n - 1, n, n + 1]
        keys = rng.choice([[], ["u"]]) + ["id"]
        stages = [["sort", rng.choice([None, 0] + lim), [[rng.choice(["", "-"]), k] for k in keys], rng.random() < .15, rng.choice(["", "limit="])]]
        if rng.random() < .6:
            stages.append(P.head(rng, rng.choice(lim)))
        if rng.random() < .3:
            stages.insert(0, ["fields", "", ["id", "u"]])
        q = dict(stages=stages, free=None, final=None, runtime=rng.random() < .5, runs=pipekit.gen_runs(rng, tier)[:2])
        return dict(rows=[], big=[n, rng.choice([1, 3, 9973])], queries=[q], randseed=rng.randrange(1 << 40))
    return dict(rows=rows, queries=qs, randseed=rng.randrange(1 << 40))


def text(q):
    return " | ".join(["index=main"] + [P.text(s) for s in q["stages"]]) + (" | stats count as n, sum(u) as t, min(id) as lo" if q.get("final") else "")


def run(scn, ctx):
    common.seed_rust(scn["randseed"])
    cl = pipekit.Cluster(E, ctx)
    source = scn["rows"]
    if scn.get("big"):
        n, step = scn["big"]
        at = [f for f, _ in P.TFIELDS]
        fill = lambda i: [i if f == "id" else i % 7 if f == "u" else None for f in at]
        source = [fill(i * step % 10009 + 1) for i in range(n)]
    rows = P.load(source, P.TFIELDS)
    n = dict(ok=0, unclear=0, events=0)
    for q in scn["queries"]:
        E.SIM.tables.clear()
        E.SIM.tables["main"] = (P.TFIELDS, rows)
        free = q.get("free")
        limit = None
        try:
            stages = list(q["stages"])
            if free is not None:
                hs = [i for i, s in enumerate(stages) if s[0] == "head"]
                if len(hs) != 1 or any(s[0] in ("where", "search", "sort") for s in stages[hs[0]:]):
                    n["unclear"] += 1
                    continue
                limit = P.headn(stages.pop(hs[0]))
            else:
                # a head decides nothing unless a sort precedes it
                evs, cols, types = P.events(source, P.TFIELDS), [f for f, _ in P.TFIELDS], dict(P.TTYPES)
                total = False
                for s in stages:
                    if s[0] == "sort":
                        total = len({tuple(e[k] for _, k in s[2]) for e in evs}) == len(evs)
                        if not total:
                            raise P.Unclear("ties")
                    elif s[0] == "head" and not total:
                        raise P.Unclear("head without order")
                    evs, cols, types = P.apply(s, evs, cols, types)
                if not total:
                    raise P.Unclear("no order")
            evs, cols, types = P.run_ref(stages, source, P.TFIELDS, P.TTYPES)
            if q.get("final") and not ({"id", "u"} <= set(cols) and types["u"] in "in"):
                raise P.Unclear("no such field")
        except (P.Unclear, KeyError):
            n["unclear"] += 1
            continue
        t = text(q)
        what = f"{t!r} ({'runtime' if q['runtime'] else 'standalone'})"
        try:
            code = st.convert_spl_to_pyspark(t, allow_runtime=q["runtime"], format_code=False)
        except Exception as e:
            ctx.fail("refused", f"{what}: {short(common.err(e)[2], 300)}")
        for run_ in q["runs"]:
            gcols, grows = cl.collect(code, run_, what)
            where = "one partition" if pipekit.plain(run_[0]) else f"schedule {run_[0]}"
            if q.get("final"):
                us = [e["u"] for e in evs if e["u"] is not None]
                want = [len(evs), sum(us) if us else None, min(e["id"] for e in evs) if evs else None]
                d = pipekit.diff_rows([[sparkkit.canon(v) for v in want]], grows, gcols)
                if gcols != ["n", "t", "lo"] or d:
                    ctx.fail("wrong-events", f"{what}: {gcols}: {d}; on {where}")
            else:
                if sorted(gcols) != sorted(cols):
                    ctx.fail("wrong-fields", f"{what}: fields {gcols} instead of {cols}")
                want = pipekit.table_from(evs, gcols)
                if limit is not None:
                    if len(grows) != min(limit, len(want)):
                        ctx.fail("wrong-count", f"{what}: {len(grows)} events instead of {min(limit, len(want))} of {len(want)}; on {where}")
                    keyed = {repr(w[gcols.index("id")]): w for w in want} if "id" in gcols else None
                    if keyed is not None:
                        picked = [keyed.get(repr(g[gcols.index("id")])) for g in grows]
                        d = "an event that is none of its input" if None in picked else pipekit.diff_rows(picked, grows, gcols)
                        if d or len({repr(g) for g in grows}) < len(grows):
                            ctx.fail("wrong-events", f"{what}: {d}; on {where}")
                else:
                    d = pipekit.diff_rows(want, grows, gcols)
                    if d:
                        ctx.fail("wrong-events", f"{what}: {d}; on {where}")
                    i = next((i for i, (a, b) in enumerate(zip(want, grows)) if not all(pipekit.near(x, y) for x, y in zip(a, b))), None)
                    if i is not None:
                        ctx.fail("wrong-order", f"{what}: event {i + 1} is {short(dict(zip(gcols, grows[i])))} instead of {short(dict(zip(gcols, want[i])))}; on {where}")
            ctx.log(t, q["runtime"], run_, len(grows))
            n["ok"] += 1
            n["events"] += len(grows)
    for k, v in n.items():
        ctx.probe("pipelines_" + k, v)
    ctx.state([text(q) for q in scn["queries"]], ctx.choices.log[:200])
    ctx.nontrivial = n["events"] > 0 and any(not pipekit.plain(c[0]) for q in scn["queries"] for c in q["runs"])
    ctx.sample = dict(events=len(rows), queries=[dict(query=text(q), runtime=q["runtime"], schedules=[c[0] for c in q["runs"]]) for q in scn["queries"][:2]])
