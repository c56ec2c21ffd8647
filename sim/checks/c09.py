"""C09: the default table lookup.

A run is a history of 1-6 events on one simulated cluster: runtime search and data model commands without a
configured lookup, tables that appear, vanish or get new rows, session restarts, and Spark calls that fail.
Every command runs under seeded partitionings, task orders, retries and executor loss; its rows are compared
with a filter over the rows its table has at that moment.
"""
import os, random
import common, sparkkit
from common import short
from core import HarnessError


def preload():
    global E, st, commands, functions, default_table_lookup
    import pyspark._engine as E
    import pyspark.sql  # noqa
    import spl_transpiler as st
    from spl_transpiler.runtime import commands, functions
    from spl_transpiler.runtime.config import default_table_lookup


KEYS = ["index", "source", "source_type", "host", "host_tag", "event_type", "event_type_tag", "saved_splunk", "splunk_server"]
SPL = dict(zip(KEYS, ["index", "source", "sourcetype", "host", "hosttag", "eventtype", "eventtypetag", "savedsplunk", "splunk_server"]))
COLS = dict(source="_source", source_type="_sourcetype", host="_host", host_tag="_hosttag", event_type="_eventtype", event_type_tag="_eventtypetag", saved_splunk="_savedsearch", splunk_server="_splunk_server")
VALS = ["a", "b", "c", "A", "a b", "a_b", "caf\u00e9", "1", ""]
# values that a comparison by pattern, by prefix, or without regard to case or spaces takes for one another
FAMILIES = [["db_1", "db-1", "DB_1", "db_1 "], ["w.1", "w-1", "W.1", "w.12"], ["a%", "ab", "a", "a%b"], ["a*", "ab", "a", "*"], ["1", "01", "1.0", " 1"], ["a|b", "a", "b", "a|"], ["x", "xx", "", "X"],
            ["^a", "a", "a$", "[a]"], ["it's", "its", "it''s", "it"], ["a,b", "a", "b", "a, b"], ["null", "None", "", "NULL"], ["true", "True", "1", "t"]]
FIELDS = [("id", "bigint")] + [(c, "string") for c in COLS.values()] + [("x", "bigint"), ("y", "string"), ("host", "string"), ("_raw", "string"), ("_time", "bigint")]
NAMES = ["main", "web", "a", "b", "a_silver", "a_b_silver", "b_a_silver", "b_silver", "c_silver", "a_b", "db.web", "Model", "Auth", "Auth.Child", "silver", "index"]


def gen_rows(r, base, pal=None):
    pal = pal or VALS[:3]
    return [[base + i] + [r.choice(pal + [None]) if r.random() < .8 else r.choice(VALS) for _ in COLS] +
            [r.choice([0, 1, 2, 3, None]), r.choice(["a", "b", "c", None]), r.choice("ab"), f"raw {i} end", r.randint(0, 50)] for i in range(r.choice([0, 1, 3, 8, 15, 25]))]


def gen_cmd(r, pal=None):
    k = r.random()
    if k < .85:
        crit = {}
        if r.random() < .6:
            crit["index"] = r.choice(["main", "web", "a", "b", "db.web", "missing", "index"])
        for n in r.sample(KEYS[1:], r.choice([0, 0, 1, 1, 2, 3, 8])):
            crit[n] = r.choice(pal if pal and "index" in crit else VALS[:3]) if r.random() < .85 else r.choice(VALS)
        if "index" not in crit and r.random() < .8:
            crit[r.choice(["source", "source_type"])] = r.choice("abc")
        conds = []
        if r.random() < .4:
            conds.append(["x", r.randint(0, 3)])
        if r.random() < .3:
            conds.append(["y", r.choice("abc")])
        if r.random() < .25:
            # conditions which are no equality: of a pattern, of a list, of free text
            conds.append(r.choice([["y", r.choice("abc"), "!="], ["y", r.choice(["a*", "*b", "*"]), "glob"], ["x", r.sample(range(4), 2), "in"], ["y", r.sample("abc", 2), "in"], ["_raw", f"raw {r.randint(0, 9)} end", "text"], ["x", 1, ">"], ["host", r.choice("ab"), "!="], ["host", "a*", "glob"]]))
        if not crit and not conds:
            crit = dict(index="main")
        if r.random() < .08:
            # empty strings
            for n in [n for n in crit if n != "index"]:
                if r.random() < .7:
                    crit[n] = ""
            if r.random() < .4:
                conds = [c for c in conds if c[0] != "y"] + [["y", ""]]
        return dict(cmd="search", crit=crit, conds=conds, order=r.randrange(1 << 20))
    if k < .93:
        return dict(cmd="tstats", model=r.choice(["Model", "Auth", "Gone"]), node=r.choice([None, None, "Root.Child", "Root"]))
    return dict(cmd="data_model", model=r.choice(["Model", "Auth", "Gone"]), node=r.choice([None, None, "Root.Child", "Root"]))


def generate(rng, tier):
    pal = rng.choice(FAMILIES) if rng.random() < .3 else None
    tables = {n: gen_rows(rng, 1000 * i, pal) for i, n in enumerate(NAMES) if rng.random() < .8}
    for n in tables:
        if rng.random() < .04:
            tables[n] = "nocols"
    ops = []
    for _ in range(rng.randint(1, 6 if tier == "quick" else 15)):
        k = rng.random()
        if k < .12:
            ops.append(["table", rng.choice(NAMES), rng.choice([None, gen_rows(rng, rng.randrange(10**5, 10**6))])])
        elif k < .18:
            ops.append(["restart"])
        else:
            fault = [rng.choice(["getOrCreate", "table", "any", "any"]), rng.choice(["Connection", "Runtime", "PySpark", "OSError", "Attribute", "Analysis"]), rng.randint(1, 6)] if rng.random() < .25 else None
            ops.append(["cmd", rng.choice(["spl", "call", "lookup"]), gen_cmd(rng, pal), fault, rng.choice([1, 1, 2])])
            if rng.random() < .35:
                # the same command again, after something happened to its table or its session
                c = ops[-1][2]
                name = name_of(c)
                if name and rng.random() < .7:
                    ops.append(["table", name, rng.choice([None, gen_rows(rng, rng.randrange(10**5, 10**6)), gen_rows(rng, rng.randrange(10**5, 10**6))])])
                else:
                    ops.append(["restart"])
                ops.append(["cmd", ops[-2][1] if rng.random() < .5 else rng.choice(["spl", "call", "lookup"]), c if rng.random() < .8 else gen_cmd(rng), None, 1])
    chaos = dict(max_parts=rng.choice([1, 3, 6]), shuffle=rng.random() < .8, retry=rng.choice([0, 3, 6]), loss=rng.choice([0, 4]), reeval=0, scatter=rng.random() < .5)
    return dict(tables=tables, ops=ops, chaos=chaos, randseed=rng.randrange(1 << 40))


def name_of(c):
    if c["cmd"] == "search":
        if c["crit"].get("index"):
            return c["crit"]["index"]
        parts = [c["crit"].get("source"), c["crit"].get("source_type")]
        return "_".join(p for p in parts if p) + "_silver" if any(parts) else None
    return ".".join(c["model"].split(".") + (c["node"] or "").split(".")[1:])


def cond_text(f, v, op="="):
    if op == "text":
        return f'"{v}"'
    if op == "in":
        return f"{f} IN ({', '.join(map(str, v))})"
    q = v if isinstance(v, int) or op == "glob" else f'"{v}"'
    return f"{f}{'=' if op == 'glob' else op}{q}"


def cond_true(row, f, v, op="="):
    if op == "text":
        return v.split() == row[f].split()
    if op != "=" and row[f] is None:
        return False
    return {"=": lambda a: a == v, "!=": lambda a: a != v, ">": lambda a: a > v, "in": lambda a: a in v, "glob": lambda a: v.strip("*") in a}[op](row[f])


def cond_col(f, v, op="="):
    from pyspark.sql import functions as F
    c = F.col(f)
    return {"=": lambda: c == v, "!=": lambda: c != v, ">": lambda: c > v, "in": lambda: c.isin(*v), "glob": lambda: c.like(v.replace("*", "%")), "text": lambda: c == v}[op]()


def text(c):
    if c["cmd"] == "search":
        parts = [f'{SPL[k]}="{v}"' for k, v in c["crit"].items()] + [cond_text(*x) for x in c["conds"]]
        random.Random(c["order"]).shuffle(parts)
        return " ".join(parts)
    if c["cmd"] == "tstats":
        return f"tstats count from datamodel={c['model']}" + (f" where nodename={c['node']}" if c["node"] else "") + " by y"
    return f"datamodel {c['model']}" + (f" {c['node']}" if c["node"] else "") + " search"


def do(via, c):
    from pyspark.sql import functions as F
    if via == "spl" and any("*" in v for v in c.get("crit", {}).values()):
        via = "call"  # in a query this is a pattern, not the text of a criterion
    if via == "spl":
        return sparkkit.execute(st.convert_spl_to_pyspark(text(c), allow_runtime=True, format_code=False))
    if via == "lookup" and c["cmd"] == "search":
        df = default_table_lookup(**c["crit"])
        for x in c["conds"]:
            df = df.where(cond_col(*x))
        return df
    if via == "lookup" and c["cmd"] == "data_model":
        return default_table_lookup(data_model=name_of(c))
    if c["cmd"] == "search":
        return commands.search(None, *[cond_col(*x) for x in c["conds"] if len(x) > 2], **c["crit"], **{x[0]: F.lit(x[1]) for x in c["conds"] if len(x) == 2})
    if c["cmd"] == "tstats":
        return commands.tstats(from_=dict(datamodel=c["model"], nodename=c["node"]), by=["y"], count=functions.stats.count())
    return commands.data_model(c["model"], dataset_name=c["node"])


def expected(c, rows):
    names = [f for f, _ in FIELDS]
    if c["cmd"] == "tstats":
        n = {}
        for r in rows:
            y = r[names.index("y")]
            n[y] = n.get(y, 0) + 1
        return [list(x) for x in n.items()]
    if c["cmd"] == "data_model":
        return rows
    skip = () if c["crit"].get("index") else ("source", "source_type")
    want = [(COLS[k], v) for k, v in c["crit"].items() if k in COLS and k not in skip] + c["conds"]
    return [r for r in rows if all(cond_true(dict(zip(names, r)), *x) for x in want)]


def run(scn, ctx):
    from pyspark.errors import AnalysisException, PySparkException
    common.seed_rust(scn["randseed"])
    os.environ.pop("TRANSPILER_TABLE_LOOKUP_FUNCTION", None)
    E.SIM.reset(ctx.choices, ctx, scn["chaos"])
    EXC = dict(Connection=lambda: ConnectionRefusedError("refused"), Runtime=lambda: RuntimeError("gateway"), PySpark=lambda: PySparkException("down"), OSError=lambda: OSError(5, "io"),
               Attribute=lambda: AttributeError("_jsc"), Analysis=lambda: AnalysisException("gone", "TABLE_OR_VIEW_NOT_FOUND"))
    world = {}

    def put(n, rows):
        for k in [k for k in world if k.lower() == n.lower()]:
            world.pop(k)
            E.SIM.tables.pop(k, None)
        if rows is None:
            pass
        elif rows == "nocols":
            world[n] = rows
            E.SIM.tables[n] = ([("id", "bigint"), ("z", "string")], [(i, "z") for i in range(4)])
        else:
            world[n] = [list(r) for r in rows]
            E.SIM.tables[n] = (FIELDS, [tuple(r) for r in rows])
    for n, rows in scn["tables"].items():
        put(n, rows)
    st8 = dict(plan=None, n=0, fired=None)

    def hook(op, detail):
        p = st8["plan"]
        if not p or st8["fired"] is not None:
            return
        if p[0] in (op, "any"):
            st8["n"] += 1
            if st8["n"] >= (p[2] if p[0] == "any" else 1):
                st8["fired"] = EXC[p[1]]()
                ctx.fault(f"spark_{op}_{p[1]}")
                raise st8["fired"]
    E.SIM.hook = hook
    n = dict(ok=0, empty=0, refused=0, failed=0)

    def attempt(via, c, times):
        try:
            df = do(via, c)
            return ["ok"] + [sorted([list(r) for r in df.collect()], key=repr) for _ in range(times)], df
        except HarnessError:
            raise
        except Exception as e:
            return ["err", e], None

    def judge(via, c, times, what):
        out, df = attempt(via, c, times)
        name = name_of(c)
        rows = None if name is None else next((v for k, v in world.items() if k.lower() == name.lower()), None)
        ctx.log(what, out[0], type(out[1]).__name__ if out[0] == "err" else len(out[1]), name)
        if st8["fired"] is not None:
            n["failed"] += 1
            if out[0] == "ok":
                ctx.fail("failure-hidden", f"{what}: a Spark call it made failed with {st8['fired']!r}, yet it returns {short(out[1])}")
            return
        if rows is None:
            n["refused"] += 1
            if out[0] == "ok":
                ctx.fail("another-table", f"{what}: " + ("no table is named" if name is None else f"there is no table {name!r}") + f", yet it returns {short(out[1])}")
            return
        if rows == "nocols":
            need = c["cmd"] != "data_model" and (c["cmd"] == "tstats" or len(c["crit"]) - len([k for k in c["crit"] if k == "index" or (not c["crit"].get("index") and k in ("source", "source_type"))]) + len(c["conds"]) > 0)
            if out[0] == "ok" and need:
                ctx.fail("unfiltered", f"{what}: its table lacks the fields it filters on, yet it returns {short(out[1])}")
            return
        if out[0] == "err":
            ctx.fail("command-failed", f"{what}: the table {name!r} is there, yet it fails: {type(out[1]).__name__}: {short(out[1])}")
        want = sorted([list(r) for r in expected(c, rows)], key=repr)
        for got in out[1:]:
            if got != want:
                ctx.fail("wrong-events", f"{what} over table {name!r}: {len(got)} rows {short(got)}, expected {len(want)} rows {short(want)}")
        n["ok" if want else "empty"] += 1

    for op in scn["ops"]:
        if op[0] == "table":
            put(op[1], op[2])
            ctx.fault("table_replaced" if op[2] is not None else "table_dropped")
        elif op[0] == "restart":
            if E.SIM.session is not None:
                E.SIM.session.stop()
            ctx.fault("session_restarted")
        else:
            _, via, c, fault, times = op
            st8.update(plan=fault, n=0, fired=None)
            judge(via, c, times, f"{text(c)!r} ({via})")
            if st8["fired"] is not None:
                st8.update(plan=None, n=0, fired=None)
                judge(via, c, times, f"{text(c)!r} ({via}) retried")
    for k, v in n.items():
        ctx.probe("commands_" + k, v)
    ctx.state(scn["tables"].keys(), scn["ops"], ctx.choices.log[:200])
    ctx.nontrivial = n["ok"] > 0 and bool(ctx.faults)
    ctx.sample = dict(tables=sorted(scn["tables"]), chaos=scn["chaos"], ops=[o if o[0] == "cmd" else o[:2] for o in scn["ops"][:4]])
