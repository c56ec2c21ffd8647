"""C08: the configured table lookup.

A run is a history of 2-12 events in one simulated process: the environment setting changes, lookup modules
appear, disappear or fail to import, and search, tstats and datamodel commands run (as generated code or
called directly), with lookups that fail on chosen calls or run commands themselves; a part of the runs has
several threads using the lookup at once.
"""
import importlib, importlib.abc, importlib.machinery, os, sys
import common, sched, sparkkit
from common import short
from core import HarnessError

ENV = "TRANSPILER_TABLE_LOOKUP_FUNCTION"


def preload():
    global E, st, commands, functions
    sched.install_locks()
    import pyspark._engine as E
    import pyspark.sql  # noqa
    import spl_transpiler as st
    from spl_transpiler.runtime import commands, functions


KEYS = ["index", "source", "source_type", "host", "host_tag", "event_type", "event_type_tag", "saved_splunk", "splunk_server"]
SPL = dict(zip(KEYS, ["index", "source", "sourcetype", "host", "hosttag", "eventtype", "eventtypetag", "savedsplunk", "splunk_server"]))
VALUES = ["main", "web", "a", "idx_1", "WinEventLog:Security", "/var/log/x.log", "s 1", "host-1", "10.0.0.1", "caf\u00e9", "0", "true", "index", "None", "x=1", "", " ", "42", "2.5"]
MODS = ["lk_a", "lk_b", "lk_pkg.sub"]
EXCS = {"ValueError": ValueError, "KeyError": KeyError, "Runtime": RuntimeError, "TypeError": TypeError, "OSError": OSError, "Import": ImportError, "Attribute": AttributeError,
        "Assertion": AssertionError, "Timeout": TimeoutError, "NotImplemented": NotImplementedError, "Stop": StopIteration}
IMPORT_EXC = {"ImportError": ImportError, "ModuleNotFoundError": ModuleNotFoundError, "OSError": OSError, "SyntaxError": SyntaxError, "ValueError": ValueError, "RuntimeError": RuntimeError, "AttributeError": AttributeError}


def gen_cmd(r):
    k = r.random()
    if k < .1:
        # a search of several sources: of several indexes, or several searches
        if r.random() < .5:
            c = gen_search(r)
            c["crit"].pop("index", None)
            return dict(cmd="multi", form="indexes", parts=[dict(c, crit=dict(c["crit"], index=n), tail="") for n in r.sample(["main", "web", "a", "idx_1"], r.choice([2, 2, 3]))])
        return dict(cmd="multi", form="multisearch", parts=[dict(gen_search(r), tail="") for _ in range(r.choice([2, 2, 3]))])
    if k < .6:
        return gen_search(r)
    if k < .8:
        return dict(cmd="tstats", model=r.choice(["Model", "Authentication", "Net.Traffic"]), node=r.choice([None, None, "Root.Child", "Root", "R.A.B"]), where=r.random() < .3)
    return dict(cmd="data_model", model=r.choice(["Model", "Authentication"]), node=r.choice([None, None, "Root.Child", "Root", "R.A.B"]))


def gen_search(r):
    if True:
        crit = {n: r.choice(VALUES) for n in r.sample(KEYS, r.choice([0, 1, 1, 2, 2, 3, 5, 9]))}
        conds = []
        if r.random() < .5:
            conds.append(["x", r.randint(0, 3)])
        if r.random() < .3:
            conds.append(["y", r.choice("ab")])
        if r.random() < .25:
            # conditions which are no equality
            conds.append(r.choice([["y", r.choice("ab"), "!="], ["y", r.choice(["a*", "*b"]), "glob"], ["x", r.sample(range(4), 2), "in"], ["_raw", f"event {r.randint(0, 7)}", "text"], ["x", 1, ">"]]))
        if not crit and not conds:
            crit = dict(index="main")
        if "index" in crit and r.random() < .05:
            crit["index"] = r.choice(["web*", "*", "w*b"])  # what a pattern stands for is up to the lookup
        return dict(cmd="search", crit=crit, conds=conds, order=r.randrange(1 << 20), tail=r.choice(["", "", "", "where", "search", "head"]))


def generate(rng, tier):
    def setting():
        k = rng.random()
        m = rng.choice(MODS)
        if k < .7:
            return f"{m}:find"
        return rng.choice([None, "", "nocolon", f"{m}:find:x", f"{m}:absent", "no_such_module:find", f"{m}:constant", f"{m}:", ":find", f"{m}.find"])

    def state():
        k = rng.random()
        if k < .65:
            return "ok"
        return rng.choice(["missing", "noattr", "notcallable"] + ["import_" + n for n in IMPORT_EXC])
    mods = {m: ("ok" if rng.random() < .6 else state()) for m in MODS}
    ops = []
    for _ in range(rng.randint(2, 12 if tier == "quick" else 30)):
        k = rng.random()
        if k < .15:
            ops.append(["env", setting()])
        elif k < .3:
            ops.append(["mod", rng.choice(MODS), state()])
        else:
            fault = None
            if rng.random() < .3:
                fault = ["raise", rng.choice(sorted(EXCS))] if rng.random() < .8 else ["returns", rng.choice(["None", "int", "str"])]
            elif rng.random() < .15:
                fault = ["nested", gen_cmd(rng)]
            ops.append(["cmd", rng.choice(["spl", "call"]), gen_cmd(rng), fault])
    threads = None
    if rng.random() < .2:
        threads = [[[rng.choice(["spl", "call"]), gen_cmd(rng), ["raise", rng.choice(sorted(EXCS))] if rng.random() < .25 else None] for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 3))]
    return dict(env=setting(), mods=mods, ops=ops, threads=threads, preempt=rng.choice([.02, .1, .3]), randseed=rng.randrange(1 << 40))


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """The simulated module path: the lookup modules in their current state."""

    def __init__(self, world):
        self.world = world

    def find_spec(self, name, path=None, target=None):
        if name in self.world.states or name == "lk_pkg":
            st_ = self.world.states.get(name, "ok")
            if st_ == "missing":
                return None
            return importlib.machinery.ModuleSpec(name, self, is_package=name == "lk_pkg")
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        st_ = self.world.states.get(module.__name__, "ok")
        if st_.startswith("import_"):
            self.world.ctx.fault(st_)
            raise IMPORT_EXC[st_[7:]]("while importing " + module.__name__)
        self.world.fill(module)


class World:
    def __init__(self, scn, ctx):
        self.states, self.ctx = dict(scn["mods"]), ctx
        self.calls, self.plans = {}, {}
        self.depth = 0
        self.seq = 0

    def fill(self, m):
        st_ = self.states.get(m.__name__, "ok")
        m.constant = 7
        if hasattr(m, "find"):
            del m.find
        if st_ == "ok":
            m.find = self.finder(m.__name__)
        elif st_ == "notcallable":
            m.find = [1]

    def set_state(self, name, st_):
        self.states[name] = st_
        m = sys.modules.get(name)
        if m is not None:
            if st_ == "missing" or st_.startswith("import_"):
                del sys.modules[name]
                if name == "lk_pkg.sub" and "lk_pkg" in sys.modules and hasattr(sys.modules["lk_pkg"], "sub"):
                    del sys.modules["lk_pkg"].sub
                importlib.invalidate_caches()
            else:
                self.fill(m)

    def me(self):
        s = sched.current
        t = s.me() if s is not None else None
        return t.idx if t is not None else None

    def finder(self, modname):
        def find(*a, **k):
            me = self.me()
            sched.point("lookup")
            self.calls.setdefault(me, []).append((modname, a, dict(k)))
            plan = self.plans.get(me)
            self.plans[me] = None
            if plan and plan[0] == "raise":
                self.ctx.fault("lookup_" + plan[1])
                e = EXCS[plan[1]]("the lookup failed")
                self.raised = e
                self.raised_by = {**getattr(self, "raised_by", {}), me: e}
                raise e
            if plan and plan[0] == "returns":
                self.ctx.fault("lookup_returns_" + plan[1])
                return {"None": None, "int": 3, "str": "main"}[plan[1]]
            if plan and plan[0] == "nested":
                self.ctx.fault("nested_command")
                n0 = len(self.calls[me])
                do(self, "call", plan[1])
                self.nested = self.calls[me][n0:]
                del self.calls[me][n0:]
            self.seq += 1
            from pyspark.sql import SparkSession
            df = SparkSession.builder.getOrCreate().createDataFrame(data(f"{modname}#{self.seq}"), "x bigint, y string, _raw string, tag string")
            self.last = {**getattr(self, "last", {}), me: f"{modname}#{self.seq}"}
            sched.point("lookup-done")
            return df
        return find


def data(tag):
    return [(i % 4, "ab"[i % 2], f"event {i}", tag) for i in range(7)]


def cond_text(f, v, op="="):
    if op == "text":
        return f'"{v}"'
    if op == "in":
        return f"{f} IN ({', '.join(map(str, v))})"
    q = v if isinstance(v, int) or op == "glob" else f'"{v}"'
    return f"{f}{'=' if op == 'glob' else op}{q}"


def cond_true(a, v, op="="):
    return {"=": lambda: a == v, "text": lambda: a == v, "!=": lambda: a != v, ">": lambda: a > v, "in": lambda: a in v, "glob": lambda: v.strip("*") == a}[op]()


def cond_col(f, v, op="="):
    from pyspark.sql import functions as F
    c = F.col(f)
    return {"=": lambda: c == v, "text": lambda: c == v, "!=": lambda: c != v, ">": lambda: c > v, "in": lambda: c.isin(*v), "glob": lambda: c.like(v.replace("*", "%"))}[op]()


def text(c):
    import random
    if c["cmd"] == "multi" and c["form"] == "indexes":
        return " ".join([f"index={p['crit']['index']}" for p in c["parts"]] + [text(dict(c["parts"][0], crit={k: v for k, v in c["parts"][0]["crit"].items() if k != "index"}))])
    if c["cmd"] == "multi":
        return "multisearch " + " ".join(f"[search {text(p)}]" for p in c["parts"])
    if c["cmd"] == "search":
        bare = c["order"] % 3 == 0
        parts = [f'{SPL[k]}={v}' if bare and (v.isdigit() or v == "2.5" or v.isascii() and v.isalpha()) and (k != "index" or v.isalpha()) else f'{SPL[k]}="{v}"' for k, v in c["crit"].items()] + [cond_text(*x) for x in c["conds"]]
        random.Random(c["order"]).shuffle(parts)
        return " ".join(parts) + {"": "", "where": " | where x > 1", "search": " | search y=\"a\"", "head": " | head 3"}[c["tail"]]
    if c["cmd"] == "tstats":
        return f"tstats count from datamodel={c['model']}" + (f" where nodename={c['node']}" if c["node"] else "") + (" where x > 1" if c["where"] else "") + " by y"
    return f"datamodel {c['model']}" + (f" {c['node']}" if c["node"] else "") + " search"


def do(world, via, c):
    from pyspark.sql import functions as F
    if via == "spl":
        return sparkkit.execute(st.convert_spl_to_pyspark(text(c), allow_runtime=True, format_code=False))
    if c["cmd"] == "multi":
        df = None
        for p in c["parts"]:
            d = do(world, via, p)
            df = d if df is None else df.unionByName(d)
        return df
    if c["cmd"] == "search":
        df = commands.search(None, *[cond_col(*x) for x in c["conds"] if len(x) > 2], **{k: v for k, v in c["crit"].items()}, **{x[0]: F.lit(x[1]) for x in c["conds"] if len(x) == 2})
        return {"": lambda: df, "where": lambda: df.where(F.col("x") > 1), "search": lambda: commands.search(df, y=F.lit("a")), "head": lambda: df.limit(3)}[c["tail"]]()
    if c["cmd"] == "tstats":
        kw = dict(where=F.col("x") > 1) if c["where"] else {}
        return commands.tstats(from_=dict(datamodel=c["model"], nodename=c["node"]), by=["y"], count=functions.stats.count(), **kw)
    return commands.data_model(c["model"], dataset_name=c["node"])


def expected(c, tag):
    if c["cmd"] == "multi":
        return [r[:3] for p in c["parts"] for r in expected(p, tag)]
    rows = data(tag)
    if c["cmd"] == "search":
        for f, *v in c["conds"]:
            rows = [r for r in rows if cond_true(r[["x", "y", "_raw"].index(f)], *v)]
        if c["tail"] == "where":
            rows = [r for r in rows if r[0] > 1]
        elif c["tail"] == "search":
            rows = [r for r in rows if r[1] == "a"]
        return rows
    if c["cmd"] == "tstats":
        if c["where"]:
            rows = [r for r in rows if r[0] > 1]
        n = {}
        for r in rows:
            n[r[1]] = n.get(r[1], 0) + 1
        return list(n.items())
    return rows


def name_of(c):
    return ".".join(c["model"].split(".") + (c["node"] or "").split(".")[1:])


def resolvable(env, states):
    """'default', the module name, or None when the setting names nothing usable (with the reason)."""
    if env is None:
        return "default", None
    if env.count(":") != 1:
        return None, "the setting has the wrong format"
    m, f = env.split(":")
    if m not in states:
        return None, "there is no such module"
    s = states[m]
    if s == "missing" or s.startswith("import_"):
        return None, f"its module is {s}"
    if f == "find" and s == "ok":
        return m, None
    return None, "its module has no such function"


def run(scn, ctx):
    common.seed_rust(scn["randseed"])
    E.SIM.reset(ctx.choices, ctx)
    w = World(scn, ctx)
    sys.meta_path.insert(0, Finder(w))
    for n in ("main", "Model"):
        E.SIM.tables[n] = ([("x", "bigint"), ("y", "string"), ("_raw", "string"), ("tag", "string")], data("default"))
    tables = []

    def hook(op, detail):
        if op in ("table", "tableExists"):
            tables.append(detail)
    E.SIM.hook = hook

    def setenv(v):
        os.environ.pop(ENV, None)
        if v is not None:
            os.environ[ENV] = v
        w.env = v
    setenv(scn["env"])
    resolved = None
    n = dict(ok=0, unresolved=0, raised=0, default=0)

    def verdict(c, via, fault, who, out, calls, tabs, last, raised, now):
        """Compares one command's outcome with what the setting in force (now) demands."""
        what = f"{text(c)!r} ({via}){who} with lookup {w.env!r}"
        target, why = now
        if target is None:
            n["unresolved"] += 1
            if calls:
                ctx.fail("used-unresolved", f"{what}: {why}, yet a lookup was called: {short(calls)}")
            if out[0] == "ok":
                ctx.fail("fell-back", f"{what}: {why}, yet the command succeeds" + (f", reading {tabs}" if tabs else ""))
            return
        if target == "default":
            n["default"] += 1
            if calls:
                ctx.fail("wrong-lookup", f"{what}: no lookup is configured, yet {calls[0][0]} was called")
            return
        others = [x for x in calls if x[0] != target]
        if others:
            ctx.fail("wrong-lookup", f"{what}: {target} is in effect, yet {others[0][0]} was called")
        stops = fault and fault[0] in ("raise", "returns")
        if len(calls) != (len(c["parts"]) if c["cmd"] == "multi" and not stops else 1):
            ctx.fail("lookup-count", f"{what}: {len(calls)} lookups for {len(c['parts']) if c['cmd'] == 'multi' else 'one source'}" + (f"; it ended with {out[1]!r}" if out[0] == "err" else ""))
        if tabs:
            ctx.fail("another-source", f"{what}: besides the configured lookup it read the tables {tabs}")
        _, a, k = calls[0]
        if c["cmd"] == "multi":
            asked = [{x: v for x, v in [*k.items(), *zip(KEYS, a)] if v is not None} for _, a, k in calls]
            left = [p["crit"] for p in c["parts"]]
            for given in asked:
                if given not in left:
                    ctx.fail("criteria-lost", f"{what}: the lookup received {given}, the query says {left}")
                left.remove(given)
        elif c["cmd"] == "search":
            given = {x: v for x, v in k.items() if v is not None}
            given.update({x: v for x, v in zip(KEYS, a) if v is not None})
            if given != c["crit"]:
                ctx.fail("criteria-lost", f"{what}: the lookup received {given}, the query says {c['crit']}")
        else:
            given = [v for v in list(a) + list(k.values()) if v is not None]
            if given != [name_of(c)]:
                ctx.fail("criteria-lost", f"{what}: the lookup received {given}, the data model's table is {name_of(c)!r}")
        if fault and fault[0] == "raise":
            n["raised"] += 1
            if out[0] == "ok":
                ctx.fail("error-hidden", f"{what}: the lookup raised {fault[1]}, yet the command succeeds")
            if raised not in sparkkit.chain(out[1]):
                ctx.fail("error-hidden", f"{what}: the lookup raised {fault[1]}, the command reports {type(out[1]).__name__}: {short(out[1])} without it")
            return
        if fault and fault[0] == "returns":
            if out[0] == "ok":
                ctx.fail("error-hidden", f"{what}: the lookup returned {fault[1]}, yet the command succeeds with {short(out[1])}")
            return
        if out[0] == "err":
            ctx.fail("command-failed", f"{what}: the lookup gave its table, yet the command fails: {type(out[1]).__name__}: {short(out[1])}")
        got = [tuple(r)[:3] if c["cmd"] == "multi" else tuple(r) for r in out[1]]
        want = expected(c, last)
        n["ok"] += 1
        if c["cmd"] == "search" and c["tail"] == "head":
            if len(got) != min(3, len(want)) or any(g not in want for g in got):
                ctx.fail("wrong-rows", f"{what}: {short(got)} instead of 3 of {short(want)}")
        elif sorted(got) != sorted(want):
            ctx.fail("wrong-rows", f"{what}: {short(sorted(got))}, the lookup's table has {short(sorted(want))}")

    def attempt(via, c):
        try:
            df = do(w, via, c)
            return ["ok", df.collect()]
        except HarnessError:
            raise
        except Exception as e:
            return ["err", e]

    for op in scn["ops"]:
        if op[0] == "env":
            setenv(op[1])
            ctx.fault("setting_changed")
        elif op[0] == "mod":
            w.set_state(op[1], op[2])
            ctx.fault("module_" + op[2].split("_")[0])
        else:
            _, via, c, fault = op
            w.calls.clear()
            del tables[:]
            w.plans = {None: fault}
            now = (resolved, None) if resolved else resolvable(w.env, w.states)
            if fault and fault[0] == "nested" and now[0] in (None, "default"):
                w.plans = {}
            out = attempt(via, c)
            ctx.log(via, text(c), fault, w.env, now, out[0], str(out[1])[:200] if out[0] == "err" and not isinstance(out[1], StopIteration) else len(out[1]) if out[0] == "ok" else "stop", sorted(w.calls.get(None, []), key=repr))
            verdict(c, via, fault, "", out, w.calls.get(None, []), list(tables), getattr(w, "last", {}).get(None), getattr(w, "raised", None), now)
            if now[0]:
                resolved = now[0]
    if scn["threads"]:
        now = (resolved, None) if resolved else resolvable(w.env, w.states)
        w.calls.clear()
        w.raised_by = {}
        del tables[:]
        S = sched.Scheduler(ctx, preempt=scn["preempt"], files=("/spl_transpiler/",))
        for ti, cmds in enumerate(scn["threads"]):
            def fn(ti=ti, cmds=cmds):
                res = []
                for via, c, fault in cmds:
                    w.calls[ti] = []
                    w.plans[ti] = fault
                    out = attempt(via, c)
                    res.append((via, c, fault, out, list(w.calls[ti]), w.last.get(ti) if hasattr(w, "last") else None, w.raised_by.get(ti)))
                return res
            S.spawn(fn, f"t{ti}")
        for ti, (s_, val) in enumerate(S.run()):
            if s_ != "ok":
                ctx.fail("thread-died", f"{val!r}")
            for via, c, fault, out, calls, last, raised in val:
                verdict(c, via, fault, f" in thread {ti}", out, calls, [t for t in tables if now[0] not in ("default", None)], last, raised, now)
        ctx.fault("preemption", S.switches)
        ctx.log("threads", S.switches)
    for k, v in n.items():
        ctx.probe("commands_" + k, v)
    ctx.state(scn["env"], scn["mods"], scn["ops"], scn["threads"])
    ctx.nontrivial = n["ok"] > 0 and bool(ctx.faults)
    ctx.sample = dict(setting=scn["env"], modules=scn["mods"], ops=scn["ops"][:4])
