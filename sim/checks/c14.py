"""C14: code generated with the runtime and code generated without it give the same answer, whatever the schedule
of either execution. No reference result: the two translations are each other's oracle.
"""
import datetime
import common, pipekit, splpipe as P
from common import short
from checks import c10, c12, c15
from core import HarnessError


def preload():
    global E, st
    import pyspark._engine as E
    import pyspark.sql  # noqa
    import spl_transpiler as st
    import spl_transpiler.runtime.commands, spl_transpiler.runtime.functions  # noqa: imported once, not by every run


EXTRA = [("_time", "timestamp"), ("j", "string"), ("t0", "string")]
COLS = P.FIELDS + EXTRA
BASE = 1704067200  # 2024-01-01
JS = ['{"a":1,"b":{"c":"q"}}', '{"a":"z"}', "[1,2]", "{}", '{"b":{"c":2}}', "plain", ""]

# evaluations both modes support which the reference of C11 does not cover: (text, fields read)
TEMPLATES = [(t, set(f.split())) for t, f in [
    ('strftime(_time, "%Y-%m-%d %H:%M:%S")', "_time"), ('strftime(_time, "%d/%m/%y %H")', "_time"), ('strftime(_time, "%y-%j %I %p")', "_time"), ('strftime(_time, "%B %b %A %a")', "_time"),
    ('strftime(_time, "%F %T")', "_time"), ('strptime(t0, "%Y-%m-%d %H:%M:%S")', "t0"), ('strftime(strptime(t0, "%Y-%m-%d %H:%M:%S"), "%H:%M")', "t0"),
    ('relative_time(_time, "-1d@d")', "_time"), ('relative_time(_time, "+3h@h")', "_time"), ('relative_time(_time, "@mon")', "_time"), ('relative_time(_time, "@w0")', "_time"),
    ('relative_time(_time, "-2mon@y")', "_time"), ('relative_time(_time, "-30m@h")', "_time"), ('strftime(relative_time(_time, "-1d@d"), "%Y-%m-%d")', "_time"), ('relative_time(now(), "-1d@d")', ""), ("now()", ""), ("time()", ""),
    ('strftime(now(), "%Y-%m-%d")', ""), ("json_valid(j)", "j"), ("json_keys(j)", "j"), ("mvappend(k, s)", "k s"), ('mvappend(split(k, "b"), split(s, "-"))', "k s"),
    ('mvzip(split(s, "-"), split(k, "b"))', "k s"), ('mvzip(split(s, "-"), split(k, "b"), "|")', "k s"), ('mvindex(split(s, "-"), 0, 1)', "s"), ('mvindex(split(s, "-"), 1, 2)', "s"), ('mvindex(split(s, "-"), 5)', "s"),
    ('split(s, ".")', "s"), ('split(s, "-")', "s"), ('mvcount(split(s, "a"))', "s"), ('substr(s, 2, 2)', "s"), ('substr(s, -2, 2)', "s"), ('replace(s, "[aeiou]", "_")', "s"), ('replace(s, "(.)(.)", "$2$1")', "s"),
    ('tonumber("12")', ""), ("tostring(u)", "u"), ("tostring(x)", "x"), ("max(x, u, y)", "x u y"), ("min(x, d)", "x d"), ("sum(u, x)", "u x"), ("avg(u, x, y)", "u x y"), ("round(d, 1)", "d"), ("round(u, -1)", "u"),
    ("log(u)", "u"), ("log(u, 2)", "u"), ("ln(u)", "u"), ("bit_not(u)", "u"), ("bit_xor(u, 5)", "u"), ("bit_shift_left(u, 2)", "u"), ('urldecode("a%20b%2Fc")', ""), ('urldecode(s)', "s"), ("acos(u)", "u"), ("atanh(u)", "u"),
    ("acosh(u)", "u"), ("exp(u)", "u"), ('memk("3m")', ""), ("md5(s)", "s"), ("sha1(k)", "k"), ('validate(isnotnull(x), "no x", x > 0, "low x")', "x"), ('case(x > 3, "hi", x < 0, "lo")', "x"),
    ('if(isnull(s), "none", upper(s))', "s"), ("nullif(x, u)", "x u"), ("coalesce(s, k)", "s k"), ('trim(s, " a")', "s"), ("x > 1 AND u < 3", "x u"), ('match(s, "^[a-z]")', "s"), ("isnotnull(y)", "y"),
    ('max(k, s)', "k s"), ('k . "-" . s', "k s"), ("sqrt(u) + pow(u, 2)", "u"), ("x + u * 2", "x u"), ("(x + u) * (y - 1)", "x u y"), ("exact(u)", "u"), ("pi()", ""), ("len(s)", "s"), ('tonumber(tostring(u))', "u"),
]]
COMMANDS = [("addtotals u x", "u x"), ("addtotals fieldname=tot u x y", "u x y"), ('convert timeformat="%Y-%m" ctime(_time) AS ym', "_time"), ("convert ctime(_time)", "_time"), ("convert num(u) AS un", "u"),
            ("spath input=j path=a", "j"), ("spath input=j output=q path=b.c", "j"), ("bin span=1h _time", "_time"), ("bin span=15m _time AS slot", "_time"), ('rex field=t0 "^(?<ye>[0-9]+)-(?<mo>[0-9]+)"', "t0"),
            ('eval _time=relative_time(_time, "@d")', "_time"), ('where isnotnull(_time)', "_time"), ('fields - t0, j', "t0 j"), ('rename t0 AS stamp', "t0"), ('rename j AS "raw text"', "j")]
COMMANDS = [c for c in COMMANDS if "num(" not in c[0]]
DROPS = {"fields - t0, j": {"t0", "j"}, "rename t0 AS stamp": {"t0"}, 'rename j AS "raw text"': {"j"}}
FNS = ["count", "sum", "avg", "min", "max", "dc", "range", "var", "varp", "stdev", "stdevp", "sumsq", "values", "list", "mean", "median", "percentile90", "percentile50", "exactperc25", "upperperc75", "estdc", "distinct_count"]


def gen_rows(r):
    rows = P.gen_rows(r)
    out = []
    for row in rows:
        t = None if r.random() < .1 else BASE + r.choice([r.randrange(0, 86400 * 400), r.randrange(0, 7200), 86400 * r.randrange(0, 400)])
        out.append(row + [t, r.choice(JS) if r.random() > .2 else None,
                          datetime.datetime.fromtimestamp(BASE + r.randrange(0, 86400 * 900), datetime.timezone.utc).strftime("%Y-%m-%d %H:%M:%S") if r.random() > .2 else None])
    return out


def gen_free(r, rows):
    b = P.Build(r, [row[:len(P.FIELDS)] for row in rows], runtime=False)
    src = "index=main"
    if r.random() < .4:
        s = ["search", b.g.sterm(2)]
        if b.add(s):
            t = P.stext(s[1])
            src += f" ({t})" if s[1][0] == "or" else " " + t
    n0 = len(b.stages)
    more = {c for c, _ in EXTRA}
    stages, z = [], 0
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        c = r.random()
        have = set(b.cols) | more
        if c < .5:
            n0 = len(b.stages)
            b.grow(1)
            for s in b.stages[n0:]:
                if s[0] in ("table", "fields") and not (s[0] == "fields" and s[1] == "-"):
                    more = set()
                if s[0] == "fillnull" and not s[2]:
                    b.stages.pop()
                    continue
                stages.append(P.text(s))
        elif c < .85:
            t, f = r.choice(TEMPLATES)
            if f <= have and all(P.TYPES.get(x, "t") == b.types.get(x, "t") for x in f if x in P.TYPES):
                z += 1
                stages.append(f"eval z{z}={t}")
        else:
            t, f = r.choice(COMMANDS)
            if set(f.split()) <= have and all(P.TYPES.get(x, "t") == b.types.get(x, "t") for x in f.split() if x in P.TYPES):
                stages.append(t)
                more -= DROPS.get(t, set())
    ordered = False
    c = r.random()
    if c < .25 and "id" in b.cols and not any(s.startswith("rename id") for s in stages):
        stages.append(f"sort {r.choice(['', '', '0 ', '3 '])}{r.choice(['', '-'])}id")
        ordered = True
        if r.random() < .5:
            stages.append(f"head {r.choice([1, 2, 5])}")
    elif c < .5:
        nums = [x for x in ("x", "u", "y", "d", "id") if x in b.cols and b.types[x] in "in"]
        by = [x for x in ("k", "s", "u") if x in b.cols and P.TYPES[x] == b.types[x]]
        if nums:
            fs, named = r.sample(FNS, r.choice([1, 2, 3])), r.random() < .8
            aggs = ", ".join(f"{f}({r.choice(nums)})" + (f" as a{i}" if named else "") for i, f in enumerate(fs) if named or f != "count")
            stages.append(f"stats count{' as n' if named else ''}{', ' if aggs else ''}{aggs}" + (f" by {r.choice(by)}" if by and r.random() < .7 else ""))
    return dict(src=src, stages=stages, ordered=ordered, key="id" if "id" in b.cols else None)


def gen_sources(r, tables):
    for _ in range(20):
        q = c15.gen_query(r, tables, False)
        if q and q["kind"] != "union" and len(set(n for n, _ in q.get("subs", []))) == len(q.get("subs", [])):
            return dict(src=c15.text(q), stages=[], ordered=False, key=None, model=q if q["kind"] == "model" else None)
    return None


def gen_stats(r):
    for _ in range(50):
        q = c10.gen_query(r)
        if not any(f in ("first", "last", "earliest", "latest", "mode", "rate", "earliest_time", "latest_time") for f, _ in q["aggs"]):
            q["cmd"], q["node"] = "stats", None
            q["pre"] = q["pre"] if q["pre"] in (None, "where", "search", "search2") else None
            return dict(src=c10.text(q), stages=[], ordered=False, key=None)
    return None


def generate(rng, tier):
    tables = c15.gen_tables(rng)
    main = gen_rows(rng)
    agg = c10.gen_rows(rng)
    qs = []
    for _ in range(rng.randint(1, 3 if tier == "quick" else 6)):
        c = rng.random()
        q = gen_free(rng, main) if c < .7 else gen_sources(rng, tables) if c < .85 else gen_stats(rng)
        if q:
            q["on"] = "main" if c < .85 else "agg"
            one = lambda: [pipekit.chaos(rng), rng.choice([None] * 8 + list(pipekit.EXC)), rng.randint(1, 4)]
            q["runs"] = [[one(), one()] for _ in range(rng.randint(1, 2 if tier == "quick" else 3))]
            qs.append(q)
    return dict(main=dict(rows=main), agg=dict(rows=agg), sources=None, data=tables, queries=qs, randseed=rng.randrange(1 << 40))


def when(v):
    return None if v is None else datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=v)


def loose(v):
    """Lists collected from several events come in any order."""
    return sorted(v, key=repr) if isinstance(v, list) else v


def run(scn, ctx):
    common.seed_rust(scn["randseed"])
    cl = pipekit.Cluster(E, ctx)
    n = dict(compared=0, in_neither=0, events=0)
    at = [c for c, _ in COLS].index("_time")
    for q in scn["queries"]:
        E.SIM.tables.clear()
        for name, rows in scn["data"].items():
            E.SIM.tables[name] = ((c15.TABLES | {"users": c15.LOOK})[name], [tuple(x) for x in rows])
        if q.get("model"):
            E.SIM.tables.update(c15.model_tables(q["model"], scn["data"]))
        if q["on"] == "main":
            E.SIM.tables["main"] = (COLS, [tuple(r[:at]) + (when(r[at]),) + tuple(r[at + 1:]) for r in scn["main"]["rows"]])
        else:
            E.SIM.tables["main"] = (c10.FIELDS, [tuple(r) for r in scn["agg"]["rows"]])
        t = " | ".join([q["src"]] + q["stages"])
        codes = []
        for rt in (True, False):
            try:
                codes.append(st.convert_spl_to_pyspark(t, allow_runtime=rt, format_code=False))
            except Exception as e:
                codes.append(e)
        mode = ["with the runtime", "without it"]
        for pair in q["runs"]:
            res = [code if isinstance(code, Exception) else cl.attempt(code, run_, f"{t!r} {m}") for code, run_, m in zip(codes, pair, mode)]
            if all(isinstance(x, Exception) for x in res):
                n["in_neither"] += 1
                continue
            for i in (0, 1):
                if isinstance(res[i], Exception):
                    how = "is refused" if isinstance(codes[i], Exception) else "fails"
                    ctx.fail("fails-in-one-mode", f"{t!r} {how} {mode[i]}: {type(res[i]).__name__}: {short(common.err(res[i])[2], 300)}; {mode[1 - i]} it gives {len(res[1 - i][1])} rows")
            (ca, ra), (cb, rb) = res
            if sorted(ca) != sorted(cb):
                ctx.fail("different-fields", f"{t!r} gives the fields {ca} {mode[0]} and {cb} {mode[1]}")
            dup = len(set(ca)) < len(ca)
            if not dup and ca != cb:
                ix = [cb.index(c) for c in ca]
                rb = [[r[i] for i in ix] for r in rb]
            agg = "stats" in t
            if agg:
                ra, rb = [[loose(v) for v in r] for r in ra], [[loose(v) for v in r] for r in rb]
            # an event without the grouping field may form a group or not, but the same way in both
            key = q["key"] if not agg and not dup else None
            d = pipekit.diff_rows(ra, rb, ca, key=key)
            if not d and q["ordered"] and any("sort" in s for s in q["stages"]) and [r[ca.index("id")] for r in ra] != [r[ca.index("id")] for r in rb]:
                d = "the events come in another order"
            if d:
                ctx.fail("different-answers", f"{t!r}: {d} ({mode[1]}, against {mode[0]}); schedules {pair[1][0]} and {pair[0][0]}")
            ctx.log(t, pair, len(ra))
            n["compared"] += 1
            n["events"] += len(ra)
    for k, v in n.items():
        ctx.probe("queries_" + k, v)
    ctx.state([(q["src"], q["stages"]) for q in scn["queries"]], ctx.choices.log[:200])
    ctx.nontrivial = n["events"] > 0 and any(not pipekit.plain(x[0]) for q in scn["queries"] for p in q["runs"] for x in p)
    ctx.sample = dict(events=len(scn["main"]["rows"]), queries=[dict(query=" | ".join([q["src"]] + q["stages"]), schedules=[x[0] for p in q["runs"] for x in p]) for q in scn["queries"][:2]])
