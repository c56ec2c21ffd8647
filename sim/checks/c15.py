"""C15: queries over several sources (several indexes, multisearch, join, lookup) on a simulated cluster
against an executable reference."""
import common, pipekit, splpipe as P, splref
from common import short


def preload():
    global E, st
    import pyspark._engine as E
    import pyspark.sql  # noqa
    import spl_transpiler as st
    import spl_transpiler.runtime.commands, spl_transpiler.runtime.functions  # noqa: imported once, not by every run


TABLES = {
    "alpha": [("id", "bigint"), ("k", "string"), ("u", "bigint"), ("x", "bigint"), ("s", "string"), ("_time", "timestamp")],
    "beta": [("id", "bigint"), ("k", "string"), ("u", "bigint"), ("y", "bigint"), ("d", "double"), ("_time", "timestamp")],
    "gamma": [("k", "string"), ("id", "bigint"), ("w", "string"), ("x", "bigint"), ("_time", "timestamp")],
}
LOOK = [("k", "string"), ("uid", "bigint"), ("name", "string"), ("lvl", "bigint"), ("grade", "double")]
TYPES = dict(id="i", k="s", u="i", x="i", s="s", y="i", d="n", w="s", uid="i", name="s", lvl="i", grade="n", _time="t")
KS = P.KS + ["q", "zz"]


def gen_tables(r):
    out = {}
    for n, (name, cols) in enumerate(TABLES.items()):
        nulls = r.choice([0, .2, .5])
        rows = []
        for i in range(r.choice([0, 1, 2, 3, 5, 8, 13])):
            row = []
            for c, _ in cols:
                v = {"id": 100 * (n + 1) + i, "k": r.choice(KS), "u": r.randint(0, 6), "x": r.randint(-9, 9), "y": r.randint(-9, 30), "d": r.randint(-20, 40) / 4, "s": r.choice(P.SS), "w": r.choice(P.SS), "_time": 60000 * r.randint(0, 5) + r.choice([0, 0, 0, 999])}[c]
                row.append(None if c not in ("id", "u", "_time") and r.random() < (nulls if c != "k" else .08) else v)
            rows.append(row)
        out[name] = rows
    ks = r.sample(KS, r.randint(0, len(KS)))
    out["users"] = [[k, i, r.choice(["Ann", "Bob", "Cy", None]), r.choice([1, 2, 3, None]), r.randint(0, 8) / 2] for i, k in enumerate(ks)]
    return out


def typed(t):
    return {c: TYPES[c] for c, _ in (TABLES | {"users": LOOK})[t]}


def solid(t):
    return [c for c in ("id", "u", "_time") if c in typed(t)]


KINDS = ["search", "where", "eval", "eval", "fields", "rename", "rex", "fillnull", "bin"]


def part(r, tables, name, n, kinds=KINDS, runtime=True):
    b = P.Build(r, tables[name], TABLES[name], typed(name), solid(name), runtime, feats=("k",))
    term = None
    if r.random() < .5:
        term = ["search", b.g.sterm(1)]
        if not b.add(term):
            term = None
    b.grow(n, kinds)
    return b


def merge(parts):
    """(events, columns, types) of a union by name."""
    cols, types, evs = [], {}, []
    for e, c, t in parts:
        for x in c:
            if x not in cols:
                cols.append(x)
                types[x] = t[x]
            elif types[x] != t[x] and not {types[x], t[x]} <= {"i", "n"}:
                raise P.Unclear("a field of two types")
            elif types[x] != t[x]:
                types[x] = "n"
    for e, c, t in parts:
        evs += [{x: r.get(x) for x in cols} for r in e]
    return evs, cols, types


def generate(rng, tier):
    tables = gen_tables(rng)
    qs = []
    for _ in range(rng.randint(1, 2 if tier == "quick" else 4)):
        runtime = rng.random() < .5
        q = gen_query(rng, tables, runtime)
        if q:
            q["runs"] = pipekit.gen_runs(rng, tier)
            qs.append(q)
    return dict(tables=tables, queries=qs, randseed=rng.randrange(1 << 40))


def gen_query(r, tables, runtime):
    kind = r.choice(["union", "multisearch", "multisearch", "join", "join", "lookup", "lookup", "model"])
    if r.random() < .05:
        # indexes under OR: an exact union or a refusal
        kind = "either"
    q = dict(kind=kind, runtime=runtime)
    if kind == "either":
        q["form"] = r.choice(["both", "each", "common", "or-term", "or-term"])
        names = r.sample(list(TABLES), 2)
        q["subs"] = []
        for n in names:
            b = P.Build(r, tables[n], TABLES[n], typed(n), solid(n), runtime, feats=("k",))
            for _ in range(20):
                t = ["search", b.g.sterm(1)]
                if b.add(t):
                    break
            else:
                return None
            q["subs"].append([n, [t]])
        if q["form"] == "common":
            c = ["cmp", r.choice(["<", ">", "!="]), ["f", "id"], ["n", r.randint(99, 320)]]
            q["subs"] = [[n, [["search", c]]] for n in names]
        if q["form"] == "both":
            q["subs"] = [[n, []] for n in names]
        q["post"] = []
        return q
    if kind == "model":
        q["left"] = [r.choice(list(TABLES)), []]
        q["model"] = [r.choice(["Web", "Web", "Web.Root"]), r.choice([None, "Root", "Root.Proxy", "Root.Proxy", "Root.Proxy.Denied"])]
    elif kind == "union":
        q["sources"] = r.sample(list(TABLES), r.choice([2, 2, 3]))
    elif kind == "multisearch":
        names = [r.choice(list(TABLES)) for _ in range(r.choice([2, 2, 3]))] if r.random() < .2 else r.sample(list(TABLES), r.choice([2, 2, 3]))
        q["subs"] = [[n, part(r, tables, n, r.choice([0, 0, 1, 2]), runtime=runtime).stages] for n in names]
    elif kind == "join":
        a, b = r.sample(list(TABLES), 2)
        left = part(r, tables, a, r.choice([0, 0, 1, 2]), ["search", "where", "eval", "fillnull"], runtime)
        right = part(r, tables, b, r.choice([0, 0, 1, 2]), ["search", "where", "eval", "fillnull"], runtime)
        keys = [c for c in ("k", "u") if c in left.cols and c in right.cols and left.types[c] == right.types[c]]
        if not keys:
            return None
        keys = r.sample(keys, r.randint(1, len(keys)))
        new = [c for c in right.cols if c not in left.cols and r.random() < .8]
        new = [c for c in new if c != "_time"]
        q["time"] = r.choice(["earlier", "later", "default"]) if "_time" in left.cols and "_time" in right.cols and r.random() < .4 else None
        q["off"] = r.random() < .15
        kept = keys + (["_time"] if q["time"] else [])
        right.add(r.choice([["fields", r.choice(["", "+"]), kept + new], ["table", new + kept, " "]]))
        q.update(left=[a, left.stages], right=[b, right.stages], keys=keys, type=r.choice([None, "inner", "left", "outer"]), sep=r.choice([" ", ", "]))
    else:
        a = r.choice(list(TABLES))
        left = part(r, tables, a, r.choice([0, 0, 1, 2]), runtime=runtime)
        ks = [c for c in left.cols if left.types[c] == "s" and c not in ("name",)]
        us = [c for c in left.cols if left.types[c] == "i"]
        if not ks and not us:
            return None
        on = []
        if ks and (r.random() < .8 or not us):
            on.append(["k", r.choice(ks if "k" not in ks or r.random() < .4 else ["k"])])
        else:
            on.append(["uid", r.choice(us)])
        outs = [[c, r.choice([c, c, c + "_new"])] for c in r.sample(["name", "lvl", "grade", "uid"], r.randint(1, 3))]
        outs = [o for o in outs if o[1] not in left.cols]
        mode = r.random()
        if mode < .2:
            # no OUTPUT: every other field of the table
            outs = [[c, c] for c, _ in LOOK if c != on[0][0]]
            if any(c in left.cols for c, _ in outs):
                return None
        elif mode < .4:
            # a field of the events is replaced
            old = [c for c in left.cols if c not in ("id", on[0][1]) and not c.startswith("_")]
            if old:
                outs = [o for o in outs if o[0] != on[0][0]][:2] + [[r.choice(["name", "lvl", "grade"]), r.choice(old)]]
                outs = [o for i, o in enumerate(outs) if o[0] not in [p[0] for p in outs[i + 1:]]]
                q["over"] = outs[-1][1]
        if not outs:
            return None
        q.update(left=[a, left.stages], on=on, outs=outs, sep=r.choice([" ", ", "]), bare=mode < .2, word=r.choice(["OUTPUT", "OUTPUT", "output"]))
    try:
        evs, cols, types = base(q, tables)
    except P.Unclear:
        return None
    if kind == "join":
        both = q["keys"] + (["_time"] if q["time"] else [])
        types = {c: t for c, t in types.items() if c not in both}
        cols_ok = [c for c in cols if c not in both]
    else:
        cols_ok = cols
    b = P.Build(r, [], [], {}, (), runtime)
    b.evs, b.cols, b.types = [{c: e[c] for c in cols_ok} for e in evs], cols_ok, dict(types)
    b.g.types, b.g.solid = dict(types), {"id"} & set(types)
    q["post"] = []
    if types and not q.get("over"):
        if kind == "union" and r.random() < .5:
            b.add(["search", b.g.sterm(2)])
        b.grow(r.choice([0, 0, 1, 2]), ["where", "eval", "fields", "table"] if kind == "join" else KINDS)
        q["post"] = b.stages
        if kind == "join" and any(s[0] == "eval" and any(n in both for n, _ in s[1]) for s in b.stages):
            q["post"] = []  # the key comes twice (a known finding)
            b = P.Build(r, [], [], {}, (), runtime)
            b.cols, b.types = cols_ok, dict(types)
    q["term"] = bool(kind == "union" and q["post"] and q["post"][0][0] == "search")
    q["agg"] = None
    if r.random() < .25 and not q.get("over"):
        nums = [c for c in b.cols if b.types.get(c) in ("i", "n") and c.isidentifier()]
        by = [c for c in b.cols if c in ("k", "u", "s", "w") and b.types.get(c) in ("s", "i")]
        aggs = [[f, r.choice(nums)] for f in r.sample(["sum", "min", "max", "dc"], 2)] if nums else []
        aggs = [[f, c] for f, c in aggs if f != "dc" or b.types[c] == "i"]  # which sums are equal depends on rounding
        q["agg"] = [aggs, r.sample(by, 1) if by and r.random() < .5 else []]
    return q


def base(q, tables):
    """(events, columns, types) of the combination itself."""
    def pipe(name, stages):
        return P.run_ref(stages, tables[name], TABLES[name], typed(name))
    if q["kind"] == "union":
        # several indexes are read in the order of their names
        return merge([pipe(n, []) for n in sorted(q["sources"])])
    if q["kind"] == "model":
        return pipe(*q["left"])
    if q["kind"] == "multisearch":
        return merge([pipe(n, s) for n, s in q["subs"]])
    if q["kind"] == "either":
        if q["form"] == "or-term":
            return pipe(q["subs"][0][0], [])
        return merge([pipe(n, s) for n, s in sorted(q["subs"])])
    if q["kind"] == "join":
        evs, cols, types = pipe(*q["left"])
        revs, rcols, rtypes = pipe(*q["right"])
        both = q["keys"] + (["_time"] if q.get("time") else [])
        if any(c in cols and c not in both for c in rcols) or any(c not in cols or c not in rcols for c in both):
            raise P.Unclear("a field on both sides")
        if q.get("time") and (types["_time"] != "t" or rtypes["_time"] != "t"):
            raise P.Unclear("not a time")
        by = {}
        for e in revs:
            k = tuple(e[c] for c in q["keys"])
            if None not in k:
                if k in by:
                    raise P.Unclear("several events to join")
                by[k] = e
        new = [c for c in rcols if c not in both]
        out = []
        for e in evs:
            m = by.get(tuple(e[c] for c in q["keys"]))
            if m is not None and q.get("time"):
                a, b = e["_time"], m["_time"]
                if a is None or b is None or (a > b if q["time"] == "later" else a < b):
                    m = None
            if m is None and q["type"] not in ("left", "outer"):
                continue
            out.append(dict(e, **{c: m[c] if m else None for c in new}))
        return out, cols + new, dict(types, **{c: rtypes[c] for c in new})
    evs, cols, types = pipe(*q["left"])
    at = {c: i for i, (c, _) in enumerate(LOOK)}
    by = {}
    for e in tables["users"]:
        k = tuple(e[at[c]] for c, _ in q["on"])
        if None not in k:
            by[k] = e
    out = []
    for e in evs:
        m = by.get(tuple(e[f] for _, f in q["on"]))
        out.append(dict(e, **{o: m[at[c]] if m else None for c, o in q["outs"]}))
    return out, [c for c in cols if c != q.get("over")] + [o for _, o in q["outs"]], dict(types, **{o: TYPES[c] for c, o in q["outs"]})


def pipe_text(name, stages):
    head = f"index={name}"
    stages = list(stages)
    if stages and stages[0][0] == "search":
        t = P.stext(stages.pop(0)[1])
        head += f" ({t})" if " OR " in t else f" {t}"
    return " | ".join([head] + [P.text(s) for s in stages])


def model_tables(q, tables):
    """The table of a query's data model and dataset; other names hold other events."""
    if q["kind"] != "model":
        return {}
    model, node = q["model"][0], q["model"][1] or ""
    # the dataset is named from the root of its model, which the model's name has or implies
    name = ".".join([model] + node.split(".")[1:])
    src = q["left"][0]
    other = sorted(TABLES)[(sorted(TABLES).index(src) + 1) % len(TABLES)]
    out = {t: (TABLES[other], P.load(tables[other], TABLES[other])) for t in ("Web", "Web.Root", "Web." + node, "Web.Root." + node)}
    out[name] = (TABLES[src], P.load(tables[src], TABLES[src]))
    return out


def options(q):
    """The options of join: `usetime` limits the matches to events of that side's past or future."""
    o = [f"type={q['type']}"] if q["type"] else []
    if q.get("time"):
        o.append("usetime=true")
        if q["time"] != "default":
            o.append("earlier=" + ("true" if q["time"] == "earlier" else "false"))
    elif q.get("off"):
        o += ["usetime=false", "earlier=false"]
    return "".join(x + " " for x in o)


def text(q):
    post = list(q["post"])
    if q["kind"] == "union":
        t = " ".join(f"index={n}" for n in q["sources"])
        if q["term"] and post and post[0][0] == "search":
            c = P.stext(post.pop(0)[1])
            t += f" ({c})" if " OR " in c else f" {c}"
    elif q["kind"] == "model":
        t = " ".join(["| datamodel", q["model"][0]] + ([q["model"][1]] if q["model"][1] else []) + ["search"])
    elif q["kind"] == "multisearch":
        t = "multisearch " + " ".join(f"[search {pipe_text(n, s)}]" for n, s in q["subs"])
    elif q["kind"] == "either":
        (a, c), (b, d) = [(n, P.stext(s[0][1]) if s else "") for n, s in q["subs"]]
        t = "search " + {"both": f"index={a} OR index={b}", "each": f"(index={a} ({c})) OR (index={b} ({d}))", "common": f"(index={a} OR index={b}) {c}", "or-term": f"index={a} OR ({c})"}[q["form"]]
    elif q["kind"] == "join":
        t = pipe_text(*q["left"]) + " | join " + options(q) + q["sep"].join(q["keys"]) + f" [search {pipe_text(*q['right'])}]"
    else:
        t = pipe_text(*q["left"]) + " | lookup users " + ", ".join(c if c == f else f"{c} AS {P.qn(f)}" for c, f in q["on"])
        if not q.get("bare"):
            t += f" {q.get('word') or 'OUTPUT'} " + q["sep"].join(c if c == o else f"{c} AS {P.qn(o)}" for c, o in q["outs"])
    t = " | ".join([t] + [P.text(s) for s in post])
    if q.get("agg"):
        fns, by = q["agg"]
        t += " | stats count as n" + "".join(f", {f}({c}) as a{i}" for i, (f, c) in enumerate(fns)) + (f" by {by[0]}" if by else "")
    return t


def judge_agg(q, evs, gcols, grows, what, ctx):
    fns, by = q["agg"]
    names = by + ["n"] + [f"a{i}" for i in range(len(fns))]
    if gcols != names:
        ctx.fail("wrong-fields", f"{what}: fields {gcols} instead of {names}")
    groups = {}
    for e in evs:
        groups.setdefault(tuple(e[b] for b in by), []).append(e)
    if not by and not groups:
        groups[()] = []
    raw = lambda v: v[1] if isinstance(v, tuple) else v
    seen = {}
    for g in grows:
        g = [raw(v) for v in g]
        k = tuple(g[:len(by)])
        if k in seen:
            ctx.fail("wrong-groups", f"{what}: group {k} comes twice")
        seen[k] = g[len(by):]
    for k, es in groups.items():
        if k not in seen:
            if None not in k:
                ctx.fail("wrong-groups", f"{what}: group {k} of {len(es)} events is missing")
            continue
        if seen[k][0] != len(es):
            ctx.fail("wrong-aggregate", f"{what}: {seen[k][0]} events counted in group {k} instead of {len(es)}")
        for i, (f, c) in enumerate(fns):
            v = splref.agg_verdict(f, [e[c] for e in es], [0] * len(es), seen[k][1 + i])
            if v:
                ctx.fail("wrong-aggregate", f"{what}: {f}({c}) of group {k} is {short(seen[k][1 + i])} instead of {short(v[1])}")
    for k in seen:
        if k not in groups:
            ctx.fail("wrong-groups", f"{what}: there are no events of group {k}")


def run(scn, ctx):
    common.seed_rust(scn["randseed"])
    cl = pipekit.Cluster(E, ctx)
    tables = scn["tables"]
    n = dict(ok=0, unclear=0, refused=0, events=0)
    for q in scn["queries"]:
        E.SIM.tables.clear()
        for name, rows in tables.items():
            E.SIM.tables[name] = ((TABLES | {"users": LOOK})[name], P.load(rows, (TABLES | {"users": LOOK})[name]))
        E.SIM.tables.update(model_tables(q, tables))
        try:
            evs, cols, types = base(q, tables)
            for s in q["post"]:
                evs, cols, types = P.apply(s, evs, cols, types)
            if q.get("agg") and not all(c in cols for c in [c for _, c in q["agg"][0]] + q["agg"][1]):
                raise P.Unclear("no such field")
        except (P.Unclear, KeyError):
            n["unclear"] += 1
            continue
        t = text(q)
        what = f"{t!r} ({'runtime' if q['runtime'] else 'standalone'})"
        try:
            code = st.convert_spl_to_pyspark(t, allow_runtime=q["runtime"], format_code=False)
        except Exception as e:
            if q["kind"] == "either":
                n["refused"] += 1
                continue
            ctx.fail("refused", f"{what}: {short(common.err(e)[2], 300)}")
        for run_ in q["runs"]:
            gcols, grows = cl.collect(code, run_, what)
            if q["kind"] == "either" and q["form"] == "or-term":
                # what else it finds depends on which indexes are searched by default
                at = gcols.index("id") if "id" in gcols else None
                lost = [e["id"] for e in evs if at is None or e["id"] not in [g[at][1] if isinstance(g[at], tuple) else g[at] for g in grows]]
                if lost:
                    ctx.fail("wrong-events", f"{what}: the event {lost[0]} of the index is missing")
                n["ok"] += 1
                continue
            where = "on " + ("one partition" if pipekit.plain(run_[0]) else f"schedule {run_[0]}")
            if q.get("agg"):
                judge_agg(q, evs, gcols, grows, f"{what} {where}", ctx)
            else:
                if q["kind"] == "join" and len(set(gcols)) < len(gcols):
                    twice = sorted({c for c in gcols if gcols.count(c) > 1})
                    if set(twice) <= set(q["keys"]) | ({"_time"} if q.get("time") else set()):
                        ctx.finding("join-key-twice", f"{what}: the field {twice[0]} comes twice")
                        # the left event's own value comes first
                        idx = [i for i, c in enumerate(gcols) if c not in gcols[:i]]
                        gcols, grows = [gcols[i] for i in idx], [[g[i] for i in idx] for g in grows]
                if sorted(gcols) != sorted(cols):
                    ctx.fail("wrong-fields", f"{what}: fields {gcols} instead of {cols}")
                twice = any(t_ == "multisearch" for t_ in [q["kind"]]) and len({s[0] for s in q["subs"]}) < len(q["subs"])
                want = pipekit.table_from(evs, gcols)
                if q.get("over"):
                    # what is left of the field where nothing matches is not prescribed
                    at, key = gcols.index(q["over"]), gcols.index("id")
                    keys = {e[0] if q["on"][0][0] == "k" else e[1] for e in tables["users"]}
                    free = {e["id"] for e in evs if e[q["on"][0][1]] not in keys}
                    is_free = lambda row: (row[key][1] if isinstance(row[key], tuple) else row[key]) in free
                    want, grows = [[[None if i == at and is_free(row) else v for i, v in enumerate(row)] for row in x] for x in (want, grows)]
                d = pipekit.diff_rows(want, grows, gcols, key=None if twice else "id")
                if d:
                    ctx.fail("wrong-events", f"{what}: {d}; {where}")
            ctx.log(t, q["runtime"], run_, len(grows))
            n["ok"] += 1
            n["events"] += len(grows)
    for k, v in n.items():
        ctx.probe("queries_" + k, v)
    ctx.state([text(q) for q in scn["queries"]], ctx.choices.log[:200])
    ctx.nontrivial = n["events"] > 0 and any(not pipekit.plain(c[0]) for q in scn["queries"] for c in q["runs"])
    ctx.sample = dict(events=sum(map(len, tables.values())), queries=[dict(query=text(q), runtime=q["runtime"], schedules=[c[0] for c in q["runs"]]) for q in scn["queries"][:2]])
