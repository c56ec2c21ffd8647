"""A small simulated Spark: lazily built plans with eager analysis, and an executor in which every
partitioning, task order, shuffle-fetch order, task retry and executor loss is drawn from the run's
seeded choices. Semantics follow Spark 4 in ANSI mode for the operations below; anything else raises
HarnessError, which is never a verdict.
"""
import copy, datetime, decimal, functools, json, math, os, re
from core import HarnessError
from .errors import *

NAMES = json.load(open(os.path.join(os.path.dirname(__file__), "_names.json")))


class Sim:
    """Per-run state of the simulated cluster."""

    def __init__(self):
        self.reset()

    def reset(self, choices=None, ctx=None, chaos=None):
        self.choices = choices
        self.ctx = ctx
        # max_parts, shuffle: permute fetch order, retry/loss: one in n tasks, reeval: one in n udf calls
        self.chaos = dict(max_parts=1, shuffle=False, retry=0, loss=0, reeval=0)
        self.chaos.update(chaos or {})
        self.tables = {}
        self.hook = None
        self.session = None
        self.log = []
        self.now = datetime.datetime(2024, 5, 17, 13, 45, 59)
        self.in_exec = 0

    def call(self, op, *detail):
        """A call that reaches the cluster: where faults of the session and of the cluster strike."""
        if self.hook is not None:
            self.hook(op, detail)

    def pick(self, n, bias=None):
        return self.choices.pick(n, bias) if self.choices is not None and n > 1 else 0

    def fault(self, kind, n=1):
        if self.ctx is not None:
            self.ctx.fault(kind, n)

    def one_in(self, n):
        return bool(n) and self.pick(n, bias=1 - 1 / n) == n - 1


SIM = Sim()


# ------------------------------------------------------------------ types
def is_num(t):
    return t in ("int", "bigint", "double", "smallint", "tinyint", "float") or t.startswith("decimal")


def is_int(t):
    return t in ("int", "bigint", "smallint", "tinyint")


def type_of(v):
    if v is None:
        return "void"
    if isinstance(v, bool):
        return "boolean"
    if isinstance(v, int):
        return "int" if -2**31 <= v < 2**31 else "bigint"
    if isinstance(v, float):
        return "double"
    if isinstance(v, str):
        return "string"
    if isinstance(v, datetime.datetime):
        return "timestamp"
    if isinstance(v, datetime.date):
        return "date"
    if isinstance(v, (list, tuple)):
        return f"array<{common_type([type_of(x) for x in v])}>"
    if isinstance(v, decimal.Decimal):
        return "decimal(38,18)"
    raise HarnessError(f"stub: no type for literal {v!r}")


def common_type(ts):
    ts = [t for t in ts if t != "void"]
    if not ts:
        return "void"
    t = ts[0]
    for u in ts[1:]:
        if t == u:
            continue
        if is_num(t) and is_num(u):
            t = "double" if "double" in (t, u) else ("bigint" if "bigint" in (t, u) else "int")
        elif "string" in (t, u):
            o = u if t == "string" else t
            # ANSI: a string meets a number, date or boolean: the string is cast
            t = {"int": "bigint", "bigint": "bigint"}.get(o, o)
        elif {t, u} == {"date", "timestamp"}:
            t = "timestamp"
        elif t.startswith("array<") and u.startswith("array<"):
            t = f"array<{common_type([t[6:-1], u[6:-1]])}>"
        else:
            raise AnalysisException(f"Cannot resolve due to data type mismatch: {t} and {u}", "DATATYPE_MISMATCH")
    return t


def cast(v, to, frm=None):
    if v is None:
        return None
    if to in ("long",):
        to = "bigint"
    if to in ("integer",):
        to = "int"
    if to in ("float",):
        to = "double"
    if to == "string":
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, float):
            return fmt_double(v)
        if isinstance(v, datetime.datetime):
            s = v.strftime("%Y-%m-%d %H:%M:%S")
            return s + (f".{v.microsecond:06d}".rstrip("0") if v.microsecond else "")
        if isinstance(v, (list, tuple)):
            return "[" + ", ".join("null" if x is None else cast(x, "string") for x in v) + "]"
        return str(v)
    if to in ("int", "bigint", "smallint", "tinyint"):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (v != v or v in (math.inf, -math.inf)):
                raise ArithmeticException(f"The value {v} cannot be cast", "CAST_OVERFLOW")
            r = int(v)
        elif isinstance(v, str):
            if not re.fullmatch(r"\s*[+-]?\d+\s*", v):
                raise NumberFormatException(f"The value '{v}' of the type \"STRING\" cannot be cast to \"{to.upper()}\" because it is malformed.", "CAST_INVALID_INPUT")
            r = int(v)
        elif isinstance(v, datetime.datetime):
            r = int(v.replace(tzinfo=datetime.timezone.utc).timestamp() // 1)
        else:
            raise HarnessError(f"stub: cast {v!r} to {to}")
        lim = 2**63 if to == "bigint" else 2**31
        if not -lim <= r < lim:
            raise ArithmeticException(f"The value {v} cannot be cast to {to}", "CAST_OVERFLOW")
        return r
    if to == "double":
        if isinstance(v, (bool, int, float)):
            return float(v)
        if isinstance(v, str):
            try:
                if "_" in v:
                    raise ValueError
                return float(v)
            except ValueError:
                raise NumberFormatException(f"The value '{v}' of the type \"STRING\" cannot be cast to \"DOUBLE\" because it is malformed.", "CAST_INVALID_INPUT")
        if isinstance(v, datetime.datetime):
            return v.replace(tzinfo=datetime.timezone.utc).timestamp()
    if to == "boolean":
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, str):
            s = v.strip().lower()
            if s in ("t", "true", "y", "yes", "1"):
                return True
            if s in ("f", "false", "n", "no", "0"):
                return False
            raise SparkRuntimeException(f"The value '{v}' cannot be cast to BOOLEAN", "CAST_INVALID_INPUT")
    if to == "date":
        if isinstance(v, str):
            m = re.match(r"\s*(\d{4})-(\d{1,2})-(\d{1,2})(?:[ T].*)?\s*$", v)
            if not m:
                raise SparkRuntimeException(f"The value '{v}' cannot be cast to DATE", "CAST_INVALID_INPUT")
            return datetime.date(*map(int, m.groups()))
        if isinstance(v, datetime.datetime):
            return v.date()
        if isinstance(v, datetime.date):
            return v
    if to == "timestamp":
        if isinstance(v, datetime.datetime):
            return v
        if isinstance(v, datetime.date):
            return datetime.datetime(v.year, v.month, v.day)
        if isinstance(v, (int, float)):
            return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=v)
        if isinstance(v, str):
            for f in ("%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%Y-%m-%d", "%Y-%m-%d %H:%M:%S.%f"):
                try:
                    return datetime.datetime.strptime(v.strip(), f)
                except ValueError:
                    pass
            raise SparkRuntimeException(f"The value '{v}' cannot be cast to TIMESTAMP", "CAST_INVALID_INPUT")
    if to == "void" or to == type_of(v):
        return v
    if to.startswith("array<") and isinstance(v, (list, tuple)):
        return [cast(x, to[6:-1]) for x in v]
    raise HarnessError(f"stub: cast of {v!r} to {to}")


def fmt_double(v):
    if v != v:
        return "NaN"
    if v in (math.inf, -math.inf):
        return "Infinity" if v > 0 else "-Infinity"
    if v == 0:
        return "-0.0" if math.copysign(1, v) < 0 else "0.0"
    a = abs(v)
    if 1e-3 <= a < 1e7:
        r = repr(v)
        if "e" in r:
            r = format(decimal.Decimal(r), "f")
        return r if "." in r else r + ".0"
    m, e = f"{decimal.Decimal(repr(v)):E}".split("E")
    m = m.rstrip("0") if "." in m else m + "."
    if m.endswith("."):
        m += "0"
    return f"{m}E{int(e)}"


def sort_key(v, desc, nulls_first):
    """A key that orders like Spark: nulls first or last, NaN greatest."""
    if v is None:
        return (0 if nulls_first else 2, Rev(0) if desc else 0)
    k = orderable(v)
    return (1, Rev(k) if desc else k)


def orderable(v):
    if isinstance(v, bool):
        return (0, int(v))
    if isinstance(v, (int, float)):
        return (1, math.inf) if v != v else (0, v)
    if isinstance(v, str):
        return v.encode("utf-8", "surrogatepass")
    if isinstance(v, (list, tuple)):
        return tuple((0,) if x is None else (1, orderable(x)) for x in v)
    if isinstance(v, dict):
        return tuple((0,) if x is None else (1, orderable(x)) for x in v.values())
    return v


@functools.total_ordering
class Rev:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return self.k == o.k

    def __lt__(self, o):
        return o.k < self.k


def hkey(v):
    """Group and join key equality: NaN equals NaN, 0.0 equals -0.0, null equals null."""
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, float):
        if v != v:
            return ("nan",)
        return ("n", v + 0.0)
    if isinstance(v, int):
        return ("n", v)
    if isinstance(v, (list, tuple)):
        return ("a",) + tuple(hkey(x) for x in v)
    if isinstance(v, dict):
        return ("m",) + tuple((k, hkey(x)) for k, x in v.items())
    return v


# ------------------------------------------------------------------ expressions
class Node:
    """op in: col, lit, fn, agg, window, alias, cast, case, sort, star, udf, explode, lambda, var"""
    __slots__ = ("op", "args", "p")

    def __init__(self, op, args=(), **p):
        self.op, self.args, self.p = op, list(args), p

    def key(self):
        return (self.op, tuple(a.key() for a in self.args), tuple(sorted((k, id(v) if callable(v) or isinstance(v, dict) else repr(v)) for k, v in self.p.items() if k not in ("loc", "attr"))))

    def walk(self):
        yield self
        for a in self.args:
            yield from a.walk()

    def name(self):
        o = self.op
        if o == "alias":
            return self.p["name"]
        if o == "col":
            return self.p["name"].split(".")[-1]
        if o == "lit":
            v = self.p["v"]
            return "NULL" if v is None else cast(v, "string")
        if o == "cast":
            # Spark shows the child's name for an implicit cast of a column
            return f"CAST({self.args[0].name()} AS {self.p['to'].upper()})"
        if o in ("sort",):
            return self.args[0].name()
        if o == "at":
            return self.p.get("name", "col")
        if o == "case":
            xs = [a.name() for a in self.args]
            s = "CASE"
            for i in range(0, len(xs) - 1, 2):
                s += f" WHEN {xs[i]} THEN {xs[i + 1]}"
            return s + (f" ELSE {xs[-1]}" if len(xs) % 2 else "") + " END"
        xs = [a.name() for a in self.args]
        f = self.p.get("fn", o)
        if o == "fn" and f == "window":
            return "window"
        if o == "fn" and len(xs) == 2 and f in OPS:
            return f"({xs[0]} {OPS[f]} {xs[1]})"
        if o == "fn" and f in ("isnull", "isnotnull"):
            return f"({xs[0]} IS {'NOT ' if f == 'isnotnull' else ''}NULL)"
        if o == "fn" and f == "not":
            return f"(NOT {xs[0]})"
        if o == "agg" and f in ("count_distinct", "sum_distinct"):
            return f"{f.split('_')[0]}(DISTINCT {', '.join(xs)})"
        if o == "agg" and f == "percentile":
            return f"percentile({xs[0]}, {self.p['q']}, 1)"
        if o == "agg" and f == "percentile_approx":
            return f"percentile_approx({xs[0]}, {self.p['q']}, {self.p['acc']})"
        return f"{self.p.get('fn', o)}({', '.join(a.name() for a in self.args)})"


OPS = {"==": "=", "<": "<", "<=": "<=", ">": ">", ">=": ">=", "<=>": "<=>", "+": "+", "-": "-", "*": "*", "/": "/", "%": "%", "and": "AND", "or": "OR", "&": "&", "|": "|", "^": "^"}


class Schema:
    def __init__(self, cols):
        self.cols = cols  # [(name, type, qualifier set)]

    def find(self, name):
        n = name
        q = None
        plain = re.fullmatch(r"`([^`]*)`", n)
        if plain:
            n = plain.group(1)
        elif "." in n:
            q, n = n.split(".", 1)
            n = n.strip("`")
        hits = [i for i, (c, t, qs) in enumerate(self.cols) if c.lower() == n.lower() and (q is None or q in qs)]
        if len(hits) == 1:
            return hits[0]
        if len(hits) > 1:
            raise AnalysisException(f"Reference `{name}` is ambiguous", "AMBIGUOUS_REFERENCE")
        raise AnalysisException(f"A column, variable, or function parameter with name `{name}` cannot be resolved. Did you mean one of the following? {[c for c, _, _ in self.cols]}", "UNRESOLVED_COLUMN.WITH_SUGGESTION")

    def locate(self, name):
        """(column, struct fields below it)"""
        if "." in name and "`" not in name:
            ps = name.split(".")
            if not any(ps[0] in q for _, _, q in self.cols):
                if any(c.lower() == ps[0].lower() and t.startswith("struct<") for c, t, _ in self.cols):
                    return self.find(ps[0]), ps[1:]
            elif len(ps) > 2:
                return self.find(ps[0] + "." + ps[1]), ps[2:]
        return self.find(name), []

    def locate_node(self, n):
        try:
            return self.locate(n.p["name"])
        except AnalysisException as e:
            if n.p.get("attr") and "is ambiguous" in str(e):
                # df["x"] knows which of the two columns it is
                raise HarnessError("stub: a column taken from one side of a join")
            raise

    def names(self):
        return [c for c, _, _ in self.cols]


FN = {}   # name -> (typ(list of types, node) -> type, impl(*values), null_propagating)
AGG = {}  # name -> class


def compile_(n, sch, env=None):
    """-> (type, function(row, env))"""
    op = n.op
    if op == "col":
        if env and n.p["name"] in env:
            i = n.p["name"]
            return env[i], lambda row, e, i=i: e[i]
        i, path = sch.locate_node(n)
        t = sch.cols[i][1]
        if not path:
            return t, lambda row, e, i=i: row[i]
        m = Node("at", i=i, t=t)
        for p in path:
            m = Node("fn", [m, Node("lit", v=p)], fn="getField")
        return compile_(m, sch, env)
    if op == "at":  # a column by its position
        i = n.p["i"]
        return n.p["t"], lambda row, e, i=i: row[i]
    if op == "lit":
        v = n.p["v"]
        return n.p.get("t") or type_of(v), lambda row, e: v
    if op in ("alias", "sort"):
        return compile_(n.args[0], sch, env)
    if op == "cast":
        t, f = compile_(n.args[0], sch, env)
        to = n.p["to"]
        if n.p.get("safe"):
            def tried(row, e):
                v = f(row, e)
                try:
                    return cast(v, to, t)
                except (PySparkException, ArithmeticError):
                    return None
            return to, tried
        return to, lambda row, e: cast(f(row, e), to, t)
    if op == "slot":  # a value computed earlier (aggregate, window, grouping expression)
        i = n.p["i"]
        return n.p["t"], lambda row, e, i=i: e["slots"][i]
    if op == "case":
        parts = [compile_(a, sch, env) for a in n.args]
        pairs, other = parts[: len(parts) - len(parts) % 2], parts[-1] if len(parts) % 2 else None
        vals = [v for i, v in enumerate(pairs) if i % 2] + ([other] if other else [])
        t = common_type([v[0] for v in vals])
        for i, c in enumerate(pairs):
            if i % 2 == 0 and c[0] not in ("boolean", "void"):
                raise AnalysisException(f"WHEN expressions must be boolean, not {c[0]}", "DATATYPE_MISMATCH.UNEXPECTED_INPUT_TYPE")

        def case(row, e):
            for i in range(0, len(pairs), 2):
                if pairs[i][1](row, e) is True:
                    return conv(pairs[i + 1][1](row, e), pairs[i + 1][0], t)
            return conv(other[1](row, e), other[0], t) if other else None
        return t, case
    if op == "udf":
        fn, rt = n.p["f"], n.p["t"]
        parts = [compile_(a, sch, env)[1] for a in n.args]

        def call(row, e):
            vals = [p(row, e) for p in parts]
            times = 1
            if SIM.chaos["reeval"] and SIM.one_in(SIM.chaos["reeval"]):
                times = 2
                SIM.fault("udf_reevaluated")
            for _ in range(times):
                try:
                    r = fn(*copy.deepcopy(vals))
                except Exception as ex:
                    raise PythonException(f"An exception was thrown from the Python worker: {type(ex).__name__}: {ex}") from ex
            return udf_result(r, rt)
        return rt, call
    if op == "agg":
        raise AnalysisException(f"aggregate function {n.p['fn']} is not allowed here", "MISSING_AGGREGATION" if False else "UNSUPPORTED_EXPR_FOR_OPERATOR")
    if op == "star":
        raise AnalysisException("Invalid usage of '*'", "INVALID_USAGE_OF_STAR_OR_REGEX")
    if op in ("window", "wfn"):
        raise AnalysisException("window function not allowed here", "UNSUPPORTED_EXPR_FOR_OPERATOR")
    if op == "hof":  # higher-order function: args[0..k-1] arrays, p: f (python), n
        spec = FN[n.p["fn"]]
        arrs = [compile_(a, sch, env) for a in n.args]
        names = n.p["vars"]
        elem = [t[6:-1] if t.startswith("array<") else "string" for t, _ in arrs]
        if n.p["fn"] == "zip_with":
            e2 = dict(env or {}, **dict(zip(names, elem)))
        else:
            e2 = dict(env or {}, **dict(zip(names, [elem[0], "int"])))
        bt, bf = compile_(n.p["body"], sch, e2)
        rt = {"filter": arrs[0][0], "exists": "boolean", "forall": "boolean"}.get(n.p["fn"], f"array<{bt}>")
        return rt, lambda row, e: spec([a[1](row, e) for a in arrs], lambda *vs: bf(row, dict(e, **dict(zip(names, vs)))))
    if op == "fold":
        (at, af), (it, jf) = [compile_(a, sch, env) for a in n.args]
        vs = n.p["vars"]
        bt, bf = compile_(n.p["body"], sch, dict(env or {}, **{vs[0]: it, vs[1]: at[6:-1] if at.startswith("array<") else "string"}))
        if bt != it:
            raise AnalysisException(f"aggregate: the merge function gives {bt}, not {it}", "DATATYPE_MISMATCH.UNEXPECTED_INPUT_TYPE")
        lt, lf = compile_(n.p["last"], sch, dict(env or {}, **{vs[0]: it})) if n.p["last"] is not None else (it, None)

        def fold(row, e):
            a, acc = af(row, e), jf(row, e)
            if a is None:
                return None
            for x in a:
                acc = bf(row, dict(e, **{vs[0]: acc, vs[1]: x}))
            return lf(row, dict(e, **{vs[0]: acc})) if lf else acc
        return lt, fold
    if op == "fn":
        fn = n.p["fn"]
        if fn not in FN:
            raise HarnessError(f"stub: function {fn}")
        typ, impl, strict = FN[fn]
        parts = [compile_(a, sch, env) for a in n.args]
        ts = [p[0] for p in parts]
        t = typ(ts, n) if callable(typ) else typ
        fs = [p[1] for p in parts]
        if strict == "lazy":
            return t, lambda row, e: impl(row, e, fs, ts, t)
        if strict == "typed":
            return t, lambda row, e: impl([f(row, e) for f in fs], ts, t)

        def strictly(row, e):
            vs = [f(row, e) for f in fs]
            for v in vs:
                if v is None:
                    return None
            return impl(*vs)
        return t, strictly
    if op == "explode":
        raise AnalysisException("Generators are not supported here", "UNSUPPORTED_GENERATOR")
    raise HarnessError(f"stub: expression {op}")


def conv(v, frm, to):
    if v is None or frm == to or to == "void":
        return v
    return cast(v, to, frm)


def udf_result(r, t):
    """What the Python worker hands back: values of another type than declared become null."""
    if r is None:
        return None
    if t in ("int", "bigint", "smallint"):
        return r if isinstance(r, int) and not isinstance(r, bool) else None
    if t == "double":
        return r if isinstance(r, float) else None
    if t == "boolean":
        return r if isinstance(r, bool) else None
    if t == "string":
        return r if isinstance(r, str) else ("true" if r is True else "false" if r is False else str(r))
    return r


def require_bool(t, what="filter"):
    if t not in ("boolean", "void"):
        raise AnalysisException(f"The condition of {what} must be boolean, not {t}", "DATATYPE_MISMATCH.FILTER_NOT_BOOLEAN")


# ------------------------------------------------------------------ plans
class Plan:
    ordered = False

    def __init__(self, schema):
        self.schema = schema


class Data:
    """Partitions of rows on their way between operators. shuffled: their inner order is the fetch order."""

    def __init__(self, parts, ordered=False, shuffled=False):
        self.parts, self.ordered, self.shuffled = parts, ordered, shuffled


def tasks(data, fn):
    """A narrow stage: fn(rows, partition index) -> rows, run task by task in a seeded order with retries."""
    n = len(data.parts)
    out = [None] * n
    order = SIM.choices.shuffle(range(n)) if SIM.chaos["shuffle"] and n > 1 and SIM.choices else range(n)
    for i in order:
        rows = data.parts[i]
        if SIM.chaos["retry"] and SIM.one_in(SIM.chaos["retry"]):
            SIM.fault("task_retried")
            # the first attempt dies part of the way through
            k = SIM.pick(len(rows) + 1)
            fn(rows[:k], i)
            if data.shuffled and not data.ordered:
                rows = SIM.choices.shuffle(rows) if len(rows) < 200 else rows  # fetched again, in another order
        out[i] = fn(rows, i)
    if SIM.chaos["loss"] and n and SIM.one_in(SIM.chaos["loss"]):
        SIM.fault("executor_lost")
        for i in range(n):
            if SIM.pick(2):
                out[i] = fn(data.parts[i], i)
    return out


def exchange(parts, nout, keyf=None):
    """A shuffle: each output partition fetches its blocks in a seeded order."""
    blocks = [[[] for _ in range(nout)] for _ in parts]
    for m, rows in enumerate(parts):
        for j, r in enumerate(rows):
            k = 0 if keyf is None or nout == 1 else stable_hash(keyf(r)) % nout
            blocks[m][k].append(r)
    out = []
    for k in range(nout):
        bs = [b[k] for b in blocks if b[k]]
        if SIM.chaos["shuffle"] and len(bs) > 1 and SIM.choices:
            ch = SIM.choices.shuffle(range(len(bs)))
            if ch != list(range(len(bs))):
                SIM.fault("shuffle_reordered")
            bs = [bs[i] for i in ch]
        out.append([r for b in bs for r in b])
    return out


def stable_hash(k):
    import zlib
    return zlib.crc32(repr(k).encode("utf-8", "replace"))


def nparts():
    return 1 + SIM.pick(SIM.chaos["max_parts"])


class Table(Plan):
    def __init__(self, schema, rows):
        super().__init__(schema)
        self.rows = rows

    def run(self):
        rows = list(self.rows)
        n = nparts()
        if n == 1:
            return Data([rows])
        if n > 1:
            SIM.fault("partitioned_input")
        if SIM.chaos.get("scatter") and SIM.pick(2):
            parts = [[] for _ in range(n)]
            for r in rows:
                parts[SIM.pick(n)].append(r)
        else:  # contiguous splits
            cuts = sorted(SIM.pick(len(rows) + 1) for _ in range(n - 1))
            parts = [rows[a:b] for a, b in zip([0] + cuts, cuts + [len(rows)])]
        return Data(parts)


def timed(child, nodes):
    """Spark puts no row without a time into a time window: it filters them first."""
    for n in nodes:
        for x in n.walk():
            if x.op == "fn" and x.p.get("fn") == "window":
                return Filter(child, Node("fn", [x.args[0]], fn="isnotnull"))
    return child


class Project(Plan):
    """exprs: [(name, node, qualifiers)]"""

    def __init__(self, child, exprs):
        child = timed(child, [n for _, n, _ in exprs])
        self.child = child
        self.windows = []
        self.gen = None
        exprs2 = []
        for name, n, q in exprs:
            inner = strip_alias(n)
            if inner.op == "explode":
                if self.gen is not None:
                    raise AnalysisException("Only one generator allowed per SELECT clause", "UNSUPPORTED_GENERATOR.MULTI_GENERATOR")
                t, f = compile_(inner.args[0], child.schema)
                if not t.startswith("array<"):
                    raise AnalysisException(f"explode needs an array, not {t}", "DATATYPE_MISMATCH.UNEXPECTED_INPUT_TYPE")
                self.gen = (len(exprs2), f, inner.p.get("outer"), inner.p.get("pos"))
                if inner.p.get("pos"):
                    names = inner.p.get("names") or ("pos", "col")
                    exprs2.append((names[0], Node("lit", v=None, t="int"), q))
                    name = names[1]
                exprs2.append((name, Node("lit", v=None, t=t[6:-1]), q))
            else:
                exprs2.append((name, self.lift(n), q))
        self.nodes = [n for _, n, _ in exprs2]
        self.c = [compile_(n, child.schema) for n in self.nodes]
        super().__init__(Schema([(name, t, q) for (name, _, q), (t, _) in zip(exprs2, self.c)]))

    def lift(self, n):
        if n.op == "window":
            t = window_type(n, self.child.schema)
            k = n.key()
            for i, (kk, _, tt) in enumerate(self.windows):
                if kk == k:
                    return Node("slot", i=i, t=tt)
            self.windows.append((k, n, t))
            return Node("slot", i=len(self.windows) - 1, t=t)
        m = Node(n.op, [self.lift(a) for a in n.args])
        m.p = n.p
        return m

    def run(self):
        d = self.child.run()
        fs = [f for _, f in self.c]
        if self.windows:
            d = run_windows(d, self.windows, self.child.schema)

            def go(rows, i):
                return [tuple(f(r, e) for f in fs) for k, (r, s) in enumerate(rows) for e in [dict(slots=s, part=i, row=k)]]
        else:
            def go(rows, i):
                e = dict(slots=(), part=i)
                out = []
                for k, r in enumerate(rows):
                    e["row"] = k
                    v = tuple(f(r, e) for f in fs)
                    if self.gen is None:
                        out.append(v)
                    else:
                        g, f, outer, pos = self.gen
                        xs = f(r, e)
                        if not xs:
                            if outer:
                                out.append(v[:g] + ((None, None) if pos else (None,)) + v[g + (2 if pos else 1):])
                            continue
                        for j, x in enumerate(xs):
                            out.append(v[:g] + ((j, x) if pos else (x,)) + v[g + (2 if pos else 1):])
                return out
        return Data(tasks(d, go), d.ordered and not self.windows, d.shuffled or bool(self.windows))


class Filter(Plan):
    def __init__(self, child, cond):
        self.child = child
        if any(x.op == "agg" for x in cond.walk()):
            raise AnalysisException("Aggregate functions are not allowed in WHERE", "INVALID_WHERE_CONDITION")
        t, self.f = compile_(cond, child.schema)
        require_bool(t)
        super().__init__(child.schema)

    def run(self):
        d = self.child.run()

        def go(rows, i):
            e = dict(slots=(), part=i)
            out = []
            for k, r in enumerate(rows):
                e["row"] = k
                if self.f(r, e) is True:
                    out.append(r)
            return out
        return Data(tasks(d, go), d.ordered, d.shuffled)


class Sort(Plan):
    def __init__(self, child, keys):
        self.child = child
        self.k = []
        for n in keys:
            desc, nf = (n.p["desc"], n.p["nulls_first"]) if n.op == "sort" else (False, True)
            t, f = compile_(n, child.schema)
            if "map" in t or t == "interval":
                raise AnalysisException(f"Cannot sort by {t}", "DATATYPE_MISMATCH.INVALID_ORDERING_TYPE")
            self.k.append((f, desc, nf))
        super().__init__(child.schema)

    def keyf(self):
        e = dict(slots=())
        return lambda r: tuple(sort_key(f(r, e), d, nf) for f, d, nf in self.k)

    def run(self):
        d = self.child.run()
        rows = exchange(d.parts, 1)[0]
        if SIM.chaos["shuffle"] and SIM.choices and len(rows) > 1 and not (len(d.parts) == 1 and not d.shuffled):
            pass
        rows = sorted(rows, key=self.keyf())
        n = nparts()
        cuts = sorted(SIM.pick(len(rows) + 1) for _ in range(n - 1))
        parts = [rows[a:b] for a, b in zip([0] + cuts, cuts + [len(rows)])]
        return Data(parts, ordered=True)


class Limit(Plan):
    def __init__(self, child, n, offset=0):
        self.child, self.n, self.offset = child, n, offset
        super().__init__(child.schema)

    def run(self):
        d = self.child.run()
        parts = d.parts
        if not d.ordered:
            # each task delivers its share; which ones arrive first is up to the cluster
            parts = [p[: self.n + self.offset] for p in parts]
            if SIM.chaos["shuffle"] and SIM.choices and len(parts) > 1:
                parts = SIM.choices.shuffle(parts)
                SIM.fault("limit_over_unordered")
        rows = [r for p in parts for r in p][self.offset: self.offset + self.n]
        return Data([rows], ordered=d.ordered, shuffled=not d.ordered and len(parts) > 1)


class Repart(Plan):
    def __init__(self, child, keep=False):
        self.child, self.keep = child, keep
        super().__init__(child.schema)

    def run(self):
        d = self.child.run()
        if self.keep:
            return d
        return Data(exchange(d.parts, nparts(), lambda r: tuple(hkey(x) for x in r)), False, True)


class Union(Plan):
    def __init__(self, kids, schema, maps):
        self.kids, self.maps = kids, maps
        super().__init__(schema)

    def run(self):
        parts = []
        order = range(len(self.kids))
        if SIM.chaos["shuffle"] and SIM.choices:
            order = SIM.choices.shuffle(order)
        res = {}
        shuf = False
        for i in order:
            d = self.kids[i].run()
            shuf |= d.shuffled
            m = self.maps[i]
            res[i] = [[tuple(None if j is None else cv(r[j]) for j, cv in m) for r in p] for p in d.parts]
        for i in range(len(self.kids)):
            parts += res[i]
        return Data(parts, False, shuf)


class SetOp(Plan):
    """subtract, intersect and their ALL forms"""

    def __init__(self, a, b, keep, all_):
        self.a, self.b, self.keep, self.all = a, b, keep, all_
        super().__init__(a.schema)

    def run(self):
        a, b = self.a.run(), self.b.run()
        key = lambda r: tuple(hkey(x) for x in r)
        n = nparts()
        out = []
        for pa, pb in zip(exchange(a.parts, n, key), exchange(b.parts, n, key)):
            left = {}
            for r in pb:
                left[key(r)] = left.get(key(r), 0) + 1
            seen, res = set(), []
            for r in pa:
                k = key(r)
                if self.all:
                    there = left.get(k, 0) > 0
                    if there:
                        left[k] -= 1
                else:
                    there = k in left
                    if k in seen:
                        continue
                    seen.add(k)
                if there == self.keep:
                    res.append(r)
            out.append(res)
        return Data(out, False, True)


class PartSort(Plan):
    def __init__(self, sort):
        self.sort, self.child = sort, sort.child
        super().__init__(sort.schema)

    def run(self):
        d = self.child.run()
        k = self.sort.keyf()
        return Data([sorted(p, key=k) for p in d.parts], len(d.parts) == 1, d.shuffled)


class Dedup(Plan):
    def __init__(self, child, idx):
        self.child, self.idx = child, idx
        super().__init__(child.schema)

    def run(self):
        d = self.child.run()
        key = lambda r: tuple(hkey(r[i]) for i in self.idx)

        def go(rows, i):
            seen = {}
            for r in rows:
                seen.setdefault(key(r), r)
            return list(seen.values())
        parts = tasks(d, go)
        parts = exchange(parts, nparts(), key)
        return Data([go(p, i) for i, p in enumerate(parts)], False, True)


class Join(Plan):
    def __init__(self, left, right, cond, how, schema, using):
        self.left, self.right, self.cond, self.how, self.using = left, right, cond, how, using
        super().__init__(schema)

    def run(self):
        kids = [self.left, self.right]
        if SIM.chaos["shuffle"] and SIM.pick(2):
            b = kids[1].run()
            a = kids[0].run()
        else:
            a, b = kids[0].run(), kids[1].run()
        # broadcast or shuffled: either way every pair meets exactly once
        right = exchange(b.parts, 1)[0]
        bcast = SIM.pick(2) if SIM.chaos["shuffle"] else 1
        if bcast and self.how in ("inner", "left", "leftsemi", "leftanti", "cross"):
            lparts = a.parts
        else:
            lparts = [exchange(a.parts, 1)[0]]
        f, how = self.cond, self.how
        nl, nr = len(self.left.schema.cols), len(self.right.schema.cols)
        out = []
        matched_r = set()
        for p in lparts:
            res = []
            for l in p:
                hit = False
                for j, r in enumerate(right):
                    if f is None or f(l + r, dict(slots=())) is True:
                        hit = True
                        matched_r.add(j)
                        if how in ("leftsemi", "leftanti"):
                            break
                        res.append(self.combine(l, r))
                if how == "leftsemi" and hit or how == "leftanti" and not hit:
                    res.append(l)
                elif not hit and how in ("left", "full"):
                    res.append(self.combine(l, None))
            out.append(res)
        if how in ("right", "full"):
            out.append([self.combine(None, r) for j, r in enumerate(right) if j not in matched_r])
        d = Data(out, False, True)
        n = nparts()
        if n > 1:
            d = Data(exchange(d.parts, n, lambda r: tuple(hkey(x) for x in r)), False, True)
        return d

    def combine(self, l, r):
        nl, nr = len(self.left.schema.cols), len(self.right.schema.cols)
        l2 = l if l is not None else (None,) * nl
        r2 = r if r is not None else (None,) * nr
        if self.using is None:
            return l2 + r2
        lk, rk = self.using
        keys = tuple((l2[i] if l is not None else r2[j]) for i, j in zip(lk, rk))
        return keys + tuple(v for i, v in enumerate(l2) if i not in lk) + tuple(v for i, v in enumerate(r2) if i not in rk)


class Aggregate(Plan):
    """groups: [(name, node)], aggs: [(name, node)]"""

    def __init__(self, child, groups, aggs):
        child = timed(child, [n for _, n in groups])
        self.child = child
        sch = child.schema
        self.g = []
        for name, n in groups:
            if any(x.op == "agg" for x in n.walk()):
                raise AnalysisException("aggregate in GROUP BY", "GROUP_BY_AGGREGATE")
            self.g.append((name, n, *compile_(n, sch)))
        self.a = []
        outs = [(name, Node("slot", i=i, t=t), t) for i, (name, n, t, f) in enumerate(self.g)]
        gk = [strip_alias(n).key() for _, n, _, _ in self.g]

        def lift(n, top=True):
            k = strip_alias(n).key()
            if n.op != "agg" and k in gk:
                i = gk.index(k)
                return Node("slot", i=i, t=self.g[i][2])
            if n.op == "agg":
                if any(x.op == "agg" for a in n.args for x in a.walk()):
                    raise AnalysisException("It is not allowed to use an aggregate function in the argument of another aggregate function.", "NESTED_AGGREGATE_FUNCTION")
                if any(x.op == "window" for a in n.args for x in a.walk()):
                    # allowed in Spark: the window is computed before the aggregation
                    raise HarnessError("stub: window inside aggregate")
                if n.p["fn"] not in AGG:
                    raise HarnessError(f"stub: aggregate {n.p['fn']}")
                parts = [compile_(a, sch) for a in n.args]
                t = AGG[n.p["fn"]].typ([p[0] for p in parts])
                self.a.append((n, parts, t))
                return Node("slot", i=len(self.g) + len(self.a) - 1, t=t)
            if n.op == "col":
                raise AnalysisException(f"The non-aggregating expression \"{n.p['name']}\" is based on columns which are not participating in the GROUP BY clause.", "MISSING_AGGREGATION")
            m = Node(n.op, [lift(a) for a in n.args])
            m.p = n.p
            return m

        for name, n in aggs:
            m = lift(n)
            t, f = compile_(m, sch)
            outs.append((name, m, t))
        self.outf = [compile_(m, sch)[1] for _, m, _ in outs]
        super().__init__(Schema([(name, t, frozenset()) for name, _, t in outs]))

    def run(self):
        d = self.child.run()
        gfs = [f for _, _, _, f in self.g]

        def partial(rows, i):
            e = dict(slots=(), part=i)
            acc = {}
            for r in rows:
                gv = tuple(f(r, e) for f in gfs)
                k = tuple(hkey(v) for v in gv)
                if k not in acc:
                    acc[k] = (gv, [AGG[n.p["fn"]](n.p) for n, _, _ in self.a])
                for st, (n, parts, t) in zip(acc[k][1], self.a):
                    st.add(*[p[1](r, e) for p in parts])
            if not gfs and not acc:
                acc[()] = ((), [AGG[n.p["fn"]](n.p) for n, _, _ in self.a])
            return list(acc.items())
        parts = tasks(d, partial)
        if not parts:
            parts = [partial([], 0)]
        n = nparts() if gfs else 1
        parts = exchange(parts, n, lambda kv: kv[0])
        out = []
        for p in parts:
            acc = {}
            for k, (gv, sts) in p:
                if k not in acc:
                    acc[k] = (gv, [copy.deepcopy(s) for s in sts])
                else:
                    for s, o in zip(acc[k][1], sts):
                        s.merge(o)
            res = []
            for k, (gv, sts) in acc.items():
                slots = list(gv) + [s.result() for s in sts]
                res.append(tuple(f((), dict(slots=slots)) for f in self.outf))
            if SIM.chaos["shuffle"] and SIM.choices and 1 < len(res) < 100:
                res = SIM.choices.shuffle(res)  # hash order
            out.append(res)
        return Data(out, False, True)


def strip_alias(n):
    while n.op == "alias":
        n = n.args[0]
    return n


# ------------------------------------------------------------------ windows
def window_type(n, sch):
    inner = n.args[0]
    fn = inner.p["fn"]
    if fn in ("row_number", "rank", "dense_rank", "ntile"):
        return "int"
    if fn in ("percent_rank", "cume_dist"):
        return "double"
    if fn in ("lag", "lead", "nth_value"):
        return compile_(inner.args[0], sch)[0]
    if fn not in AGG:
        raise HarnessError(f"stub: window function {fn}")
    return AGG[fn].typ([compile_(a, sch)[0] for a in inner.args])


def run_windows(d, windows, sch):
    rows = [(i, j, r) for i, p in enumerate(d.parts) for j, r in enumerate(p)]
    slots = {(i, j): [None] * len(windows) for i, j, _ in rows}
    e = dict(slots=())
    ex = exchange([[(i, j, r) for j, r in enumerate(p)] for i, p in enumerate(d.parts)], 1)[0]
    for w, (_, n, _) in enumerate(windows):
        spec = n.p["spec"]
        pf = [compile_(a, sch)[1] for a in spec["part"]]
        of = [(compile_(a, sch)[1],) + ((a.p["desc"], a.p["nulls_first"]) if a.op == "sort" else (False, True)) for a in spec["order"]]
        groups = {}
        for x in ex:
            groups.setdefault(tuple(hkey(f(x[2], e)) for f in pf), []).append(x)
        for g in groups.values():
            ok = lambda x: tuple(sort_key(f(x[2], e), ds, nf) for f, ds, nf in of)
            if of:
                g.sort(key=ok)
            keys = [ok(x) for x in g] if of else [()] * len(g)
            vals = window_values(n.args[0], spec, [x[2] for x in g], keys, sch, e, bool(of))
            for x, v in zip(g, vals):
                slots[x[0], x[1]][w] = v
    n = nparts()
    out = [((r, slots[i, j])) for i, j, r in ex]
    parts = exchange([out], n, lambda rs: tuple(hkey(v) for v in rs[0]))
    return Data(parts, False, True)


def window_values(inner, spec, rows, keys, sch, e, has_order):
    fn = inner.p["fn"]
    n = len(rows)
    if fn == "row_number":
        return list(range(1, n + 1))
    if fn in ("rank", "dense_rank"):
        out, d = [], 0
        for i in range(n):
            if i == 0 or keys[i] != keys[i - 1]:
                r, d = i + 1, d + 1
            out.append(r if fn == "rank" else d)
        return out
    if fn == "ntile":
        k = inner.p["n"]
        q, r = divmod(n, k)
        return [b + 1 for b in range(k) for _ in range(q + (b < r))]
    if fn == "percent_rank":
        return [keys.index(keys[i]) / (n - 1) if n > 1 else 0.0 for i in range(n)]
    if fn == "cume_dist":
        return [(n - keys[::-1].index(keys[i])) / n for i in range(n)]
    if fn in ("lag", "lead"):
        f = compile_(inner.args[0], sch)[1]
        k = inner.p["offset"] * (1 if fn == "lag" else -1)
        return [f(rows[i - k], e) if 0 <= i - k < n else inner.p.get("default") for i in range(n)]
    fs = [compile_(a, sch)[1] for a in inner.args]
    frame = spec.get("frame") or (("range", None, 0) if has_order else ("rows", None, None))
    kind, lo, hi = frame
    out = []
    for i in range(n):
        if kind == "rows":
            a = 0 if lo is None else max(0, i + lo)
            b = n if hi is None else max(0, min(n, i + hi + 1))
        else:
            if lo is None:
                a = 0
            elif lo == 0:
                a = keys.index(keys[i])
            else:
                raise HarnessError("stub: range frame with offset")
            if hi is None:
                b = n
            elif hi == 0:
                b = n - keys[::-1].index(keys[i])
            else:
                raise HarnessError("stub: range frame with offset")
        if fn == "nth_value":
            vs = [fs[0](rows[j], e) for j in range(a, b)]
            vs = [v for v in vs if v is not None] if inner.p.get("ignorenulls") else vs
            out.append(vs[inner.p["offset"] - 1] if len(vs) >= inner.p["offset"] else None)
            continue
        st = AGG[fn](inner.p)
        for j in range(a, b):
            st.add(*[f(rows[j], e) for f in fs])
        out.append(st.result())
    return out


def collect(plan):
    SIM.call("action")
    if SIM.ctx is not None:
        SIM.ctx.probe("spark_actions")
    SIM.in_exec += 1
    try:
        d = plan.run()
    finally:
        SIM.in_exec -= 1
    return [r for p in d.parts for r in p]
