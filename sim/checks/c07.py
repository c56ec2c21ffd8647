"""C07: notebook cells.

A run is a history of 2-10 SPL cells executed through the registered magic in one simulated notebook:
seeded options, user namespaces that shadow the names the generated code uses, Spark calls that fail at the
n-th call (session, table, any data frame operation), a display that fails, a lookup function that fails,
then retries once the cause is gone. The namespace is compared before and after every cell.
"""
import copy, importlib, os, sys, types
import common, splgen
from common import short
from core import HarnessError


def preload():
    global magic, E, st, seam, black_real
    import IPython.display, IPython.core.display_functions, rich.syntax  # noqa
    import pyspark._engine as E
    import pyspark.sql  # noqa
    import spl_transpiler as st
    from spl_transpiler.runtime import magic
    seam = common.BlackSeam()


class Weird(Exception):
    def __str__(self):
        raise ValueError("cannot describe myself")


def exc(name):
    from pyspark.errors import AnalysisException, PySparkException, SparkConnectException
    return {"ConnectionError": lambda: ConnectionRefusedError(111, "Connection refused"), "Timeout": lambda: TimeoutError("slow"),
            "OSError": lambda: OSError(28, "No space left on device"), "Runtime": lambda: RuntimeError("Java gateway process exited before sending its port number"),
            "Analysis": lambda: AnalysisException("gone", "TABLE_OR_VIEW_NOT_FOUND"), "PySpark": lambda: PySparkException("down"),
            "Connect": lambda: SparkConnectException("UNAVAILABLE"), "KeyError": lambda: KeyError("x"), "Name": lambda: NameError("name 'q' is not defined"),
            "Weird": lambda: Weird(), "Memory": lambda: MemoryError(), "Attribute": lambda: AttributeError("_jvm"), "Stop": lambda: StopIteration(),
            "Interrupt": lambda: KeyboardInterrupt(), "Syntax": lambda: SyntaxError("x"), "Import": lambda: ImportError("no"), "Recursion": lambda: RecursionError("deep"),
            "Chained": lambda: chained()}[name]()


def chained():
    try:
        try:
            raise OSError("socket")
        except OSError as e:
            raise RuntimeError("outer") from e
    except RuntimeError as e:
        return e


EXCS = ["ConnectionError", "Timeout", "OSError", "Runtime", "Analysis", "PySpark", "Connect", "KeyError", "Name", "Weird", "Memory", "Attribute", "Stop", "Interrupt",
        "Syntax", "Import", "Recursion", "Chained"]
SHADOW = ["F", "spark", "commands", "functions", "df", "df_1", "df_2", "out", "x", "result", "_", "SparkSession", "display", "args"]
VARS = ["df", "df", "out", "df_1", "df_2", "F", "spark", "commands", "result", "_r"]

CMDS = [lambda r: f"where x > {r.randint(0, 5)}", lambda r: f"eval z=x+{r.randint(1, 5)}", lambda r: "fields x, y", lambda r: "stats count by y",
        lambda r: "stats avg(x) as m, max(x) as mx by y", lambda r: "sort -x", lambda r: "head 2", lambda r: "rename x as xx", lambda r: "eval m=mvzip(arr, arr)",
        lambda r: "eval k=mvfilter(arr > \"a\")", lambda r: "table x y", lambda r: "eval w=upper(y), v=w", lambda r: "search x=1", lambda r: "fillnull value=0 x",
        lambda r: "eval q=if(x > 1, \"a\", \"b\")", lambda r: "regex y=\"^a\"", lambda r: "join y [search index=b]", lambda r: "where nosuchfield > 1",
        lambda r: "stats sum(x) as s", lambda r: "eval l=len(y)", lambda r: "rex field=y \"(?<u>.)\"", lambda r: "eval c=case(x > 1, \"p\", x > 0, \"q\")"]


def query(r):
    k = r.random()
    if k < .05:
        return r.choice(["index=a | nosuchcommand x", "((", "", "index=a |", "index=a OR index=b", "| eval", "index=a | stats count by"])
    head = r.choice(["index=a", "index=a", "index=a x>0", "index=b", "index=missing", "index=a y=\"a\"", "makeresults count=2"])
    q = head
    for _ in range(r.randint(0, 4)):
        q += r.choice([" | ", "\n| "]) + r.choice(CMDS)(r)
    return q + r.choice(["", "\n", "  \n\n"])


def generate(rng, tier):
    names = rng.sample(SHADOW, rng.randint(0, 7))
    vals = [rng.choice(["int", "str", "list", "dict", "func", "realF", "none", "bad"]) for _ in names]
    ops = []
    for _ in range(rng.randint(2, 10 if tier == "quick" else 30)):
        opt = []
        if rng.random() < .5:
            opt.append(rng.choice(["--use-runtime", "--no-use-runtime"]))
        if rng.random() < .2:
            opt.append(rng.choice(["--dry-run", "--dry-run", "--no-dry-run"]))
        if rng.random() < .6:
            opt.append(rng.choice(["--no-format-code", "--no-format-code", "--no-format-code", "--format-code"]))
        if rng.random() < .3:
            opt.append(rng.choice(["--print-code", "--no-print-code"]))
        if rng.random() < .6:
            opt += [["--var-name=" + rng.choice(VARS)], ["--var-name", rng.choice(VARS)]][rng.randrange(2)]
        if rng.random() < .03:
            opt.append(rng.choice(["--bogus", "--help", "--var-name", "stray"]))
        rng.shuffle(opt) if all(not o == "--var-name" for o in opt) else None
        fault = None
        if rng.random() < .5:
            fault = [rng.choice(["spark", "spark", "spark", "display", "lookup", "black", "getOrCreate"]), rng.choice(EXCS), rng.choice([1, 1, 2, 2, 3, 4, 5, 7])]
        old = [o[0] for o in ops]
        text = rng.choice(old) if old and rng.random() < .25 else splgen.relative(rng, rng.choice(old)) if old and rng.random() < .1 else query(rng)
        ops.append([text, " ".join(opt), fault, rng.random() < .7, rng.random() < .12])
    return dict(names=names, vals=vals, ops=ops, lookup=rng.random() < .35, builtins=rng.random() < .5, session=rng.random() < .5, randseed=rng.randrange(1 << 40))


def value(kind, i):
    if kind == "realF":
        from pyspark.sql import functions as F
        return F
    return {"int": 7 + i, "str": f"s{i}", "list": [1, [2, i]], "dict": {"a": [i]}, "func": lambda: i, "none": None, "bad": types.SimpleNamespace(col=None, search=None)}[kind]


def tables():
    T = [("x", "bigint"), ("y", "string"), ("arr", "array<string>"), ("_raw", "string"), ("_time", "bigint")]
    E.SIM.tables["a"] = (T, [(1, "a", ["a", "b"], "raw a", 10), (2, "b", ["c"], "raw b", 20), (3, "a", [], "raw c", 30), (None, None, None, None, 40)])
    E.SIM.tables["b"] = ([("y", "string"), ("p", "string"), ("_time", "bigint")], [("a", "p1", 5), ("c", "p2", 6)])


class Lookup(types.ModuleType):
    pass


def snapshot(ns):
    return {k: (v, copy.deepcopy(v) if isinstance(v, (list, dict)) else None) for k, v in ns.items() if k != "__builtins__"}


def rows(df):
    return [list(map(str, df.dtypes)), sorted(repr(tuple(r)) for r in df.collect())]


def reference(code, lookup):
    """The data frame the cell should bind, from the same generated code run in a namespace of its own."""
    import ast
    from pyspark.sql import SparkSession, functions as F
    from spl_transpiler.runtime import commands, functions
    ns = dict(F=F, commands=commands, functions=functions, spark=SparkSession.builder.getOrCreate())
    t = ast.parse(code)
    if not t.body:
        raise HarnessError("stub: an empty query has no data frame to bind")
    last = t.body.pop()
    exec(compile(t, "ref", "exec"), ns)
    return eval(compile(ast.Expression(last.value), "ref", "eval"), ns)


def run(scn, ctx):
    common.seed_rust(scn["randseed"])
    E.SIM.reset(ctx.choices, ctx)
    tables()
    state = dict(n=0, plan=None, calls=0, quiet=True, fired=None, lookups=0)

    def strike(where):
        e = exc(state["plan"][1])
        state["fired"] = e
        ctx.fault(f"{where}_{state['plan'][1]}")
        raise e

    def hook(op, detail):
        if state["quiet"]:
            return
        state["calls"] += 1
        p = state["plan"]
        if p and p[0] == "spark" and state["calls"] == p[2]:
            strike("spark")
        if p and p[0] == "getOrCreate" and op == "getOrCreate":
            strike("session")
    E.SIM.hook = hook
    shown = []

    def display(*objs, **k):
        p = state["plan"]
        if not state["quiet"] and p and p[0] == "display":
            strike("display")
        shown.append(objs)
    import IPython, IPython.display, IPython.core.display_functions
    IPython.display.display = IPython.core.display_functions.display = display
    if hasattr(IPython, "display") and callable(IPython.display):
        IPython.display = display
    if hasattr(magic, "display"):
        magic.display = display

    def black_hook(when, name, a, k):
        p = state["plan"]
        if not state["quiet"] and p and p[0] == "black" and when == "before":
            ctx.fault("formatter_" + p[1])
            raise exc("Runtime" if p[1] == "Interrupt" else p[1])
    seam.hooks.append(black_hook)

    if scn["lookup"]:
        m = Lookup("sim_lookup")

        def find(*a, **k):
            state["lookups"] += 1
            p = state["plan"]
            if not state["quiet"] and p and p[0] == "lookup":
                strike("lookup")
            from pyspark.sql import SparkSession
            return SparkSession.builder.getOrCreate().table(k.get("index") or (a[0] if a else "a"))
        m.find = find
        sys.modules["sim_lookup"] = m
        os.environ["TRANSPILER_TABLE_LOOKUP_FUNCTION"] = "sim_lookup:find"

    # the notebook registers the magic
    reg = {}
    ip = types.SimpleNamespace(register_magic_function=lambda f, magic_kind="line", magic_name=None: reg.__setitem__((magic_kind, magic_name or f.__name__), f))
    magic.load_ipython_extension(ip)
    fn = reg.get(("cell", "spl"))
    if fn is None:
        ctx.fail("not-registered", f"the extension registers {sorted(reg)}, not the cell magic 'spl'")

    ns = {n: value(k, i) for i, (n, k) in enumerate(zip(scn["names"], scn["vals"]))}
    ns["untouched"] = [1, {"k": [2]}]
    if scn["builtins"]:
        import builtins
        ns["__builtins__"] = builtins
    stats = dict(ok=0, failed=0, dry=0, retried=0)
    import argparse

    def cell(line, text, plan):
        state.update(plan=plan, calls=0, quiet=False, fired=None, lookups=0)
        old = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = open(os.devnull, "w")
        try:
            kw = {"local_ns": ns} if getattr(fn, "needs_local_scope", False) else {}
            fn(line, text, **kw)
            return None
        except BaseException as e:
            if isinstance(e, HarnessError):
                raise
            return e
        finally:
            sys.stdout.close()
            sys.stdout, sys.stderr = old
            state["quiet"] = True

    def once(text, line, plan, who):
        toks = line.split()
        dry = [t for t in toks if t in ("--dry-run", "--no-dry-run")]
        dry = bool(dry) and dry[-1] == "--dry-run"
        runtime = "--no-use-runtime" not in toks
        var = "df"
        for i, t in enumerate(toks):
            if t.startswith("--var-name="):
                var = t.split("=", 1)[1]
            elif t == "--var-name" and i + 1 < len(toks):
                var = toks[i + 1]
        badline = any(t in ("--bogus", "--help", "stray") for t in toks) or toks[-1:] == ["--var-name"]
        conv = common.outcome(st.convert_spl_to_pyspark, text, allow_runtime=runtime, format_code=False)
        ref = None
        if not badline and conv[0] == "ok" and not dry:
            try:
                ref = ["ok", reference(conv[1], scn["lookup"])]
            except HarnessError:
                return None
            except Exception as e:
                ref = ["err", f"{type(e).__name__}: {e}"]
        before = snapshot(ns)
        e = cell(line, text, plan)
        after = snapshot(ns)
        err = None if e is None else type(e).__name__
        ctx.log("cell", who, text, line, plan, err, state["calls"], sorted(k for k in after if k not in before))
        what = f"cell {text!r} {line!r}" + (f" with {plan} " if plan else "") + who
        changed = sorted(k for k in set(before) | set(after) if k not in before or k not in after or before[k][0] is not after[k][0] or (before[k][1] is not None and before[k][1] != after[k][0]))
        if dry and state["calls"]:
            ctx.fail("dry-run-touches-spark", f"{what}: {state['calls']} Spark calls in a dry run")
        if dry and scn["lookup"] and state["lookups"]:
            ctx.fail("dry-run-touches-spark", f"{what}: the table lookup was called in a dry run")
        if e is not None or dry:
            if changed:
                ctx.fail("namespace-changed", f"{what}: {'failed with ' + repr(err) if e is not None else 'a dry run'}, yet {changed} changed")
        if e is not None:
            stats["failed"] += 1
            f = state["fired"]
            if badline or conv[0] == "err":
                return True
            if f is not None and not isinstance(f, Exception):
                return True  # an interrupt ends the cell as it is
            if dry and f is None:
                ctx.fail("dry-run-failed", f"{what}: a dry run of a convertible query fails with {err}: {short(safe(e))}")
            if f is None and ref is not None and ref[0] == "ok":
                ctx.fail("cell-failed", f"{what}: fails with {err}: {short(safe(e))} (cause {safe(e.__cause__)}), but its code runs and yields a data frame")
            if plan and plan[0] == "display" and f is not None:
                return True
            if f is not None or (ref is not None and ref[0] == "err"):
                if type(e) is not RuntimeError:
                    ctx.fail("wrong-error", f"{what}: reported as {err}, not as one RuntimeError")
                chain, c = [], e
                while c is not None and len(chain) < 20:
                    chain.append(c)
                    c = c.__cause__
                if f is not None and not any(c is f for c in chain):
                    ctx.fail("cause-lost", f"{what}: the reported error does not carry its cause ({f!r:.100}); causes: {[type(c).__name__ for c in chain]}" if not isinstance(f, Weird) else f"{what}: the reported error does not carry its cause")
                if f is None and len(chain) < 2:
                    ctx.fail("cause-lost", f"{what}: the reported error carries no cause, the code fails with {short(ref[1])}")
            return True
        # it succeeded
        if badline:
            return True
        if conv[0] == "err":
            ctx.fail("failure-hidden", f"{what}: succeeds although the query cannot be converted ({short(conv[2])})")
        if state["fired"] is not None and plan[0] != "display":
            ctx.fail("failure-hidden", f"{what}: succeeds although a call it made failed with {plan[1]}")
        if dry:
            stats["dry"] += 1
            return True
        if ref[0] == "err":
            ctx.fail("failure-hidden", f"{what}: succeeds although its code fails with {short(ref[1])}")
        stats["ok"] += 1
        if var not in ns:
            ctx.fail("not-bound", f"{what}: succeeded without binding {var!r}")
        others = [k for k in changed if k != var]
        if others:
            ctx.fail("namespace-changed", f"{what}: besides {var!r}, {others} changed")
        if before.get(var, (None,))[0] is ns[var] and var in before:
            ctx.fail("not-bound", f"{what}: {var!r} still has its earlier value")
        try:
            got, want = rows(ns[var]), rows(ref[1])
        except HarnessError:
            return None
        except Exception as x:
            got = want = None
            try:
                rows(ref[1])
            except Exception:
                pass
            else:
                ctx.fail("wrong-binding", f"{what}: {var!r} is bound to {short(ns[var])}, which cannot be read: {x!r}")
        if got != want:
            ctx.fail("wrong-binding", f"{what}: {var!r} holds {short(got)}, the code yields {short(want)}")
        return True

    for i, (text, line, plan, retry, *restart) in enumerate(scn["ops"]):
        if restart and restart[0] and E.SIM.session is not None:
            # the session ends between two cells, as after a lost cluster or a restart
            ctx.fault("session_restarted")
            E.SIM.session.stop()
        if plan and plan[0] == "black" and "--no-format-code" in line:
            plan = None
        if not scn["session"]:
            E.SIM.session = None
        if once(text, line, plan, "") is None:
            ctx.probe("outside_the_stand_in")
            continue
        if plan and retry:
            stats["retried"] += 1
            once(text, line, None, "(retried once the cause is gone)")
    for k, v in stats.items():
        ctx.probe("cells_" + k, v)
    ctx.state(scn["ops"], scn["names"])
    ctx.nontrivial = stats["ok"] > 0 and bool(ctx.faults)
    ctx.sample = dict(namespace=scn["names"], ops=scn["ops"][:4])


def safe(e):
    try:
        return f"{type(e).__name__}: {e}"[:300]
    except Exception:
        return type(e).__name__
