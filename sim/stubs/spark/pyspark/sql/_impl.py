"""Column, DataFrame, GroupedData, Window and SparkSession of the stand-in."""
import datetime, functools
from core import HarnessError
from .. import _engine as E
from .._engine import SIM, Node, Schema, NAMES
from ..errors import *
from . import types as T
from .types import Row, norm


def unsupported(kind, name):
    if name in NAMES[kind]:
        raise HarnessError(f"stub: {kind}.{name}")
    raise AttributeError(f"'{kind}' object has no attribute '{name}'")


def lit_node(v):
    if isinstance(v, Column):
        return v._n
    if isinstance(v, (list, tuple)):
        return Node("fn", [lit_node(x) for x in v], fn="array")
    if v is not None and not isinstance(v, (bool, int, float, str, datetime.datetime, datetime.date)):
        raise PySparkTypeError(f"Unsupported literal of type {type(v).__name__}", "UNSUPPORTED_LITERAL")
    return Node("lit", v=v)


def cn(v):
    """Column or name."""
    if isinstance(v, Column):
        return v._n
    if isinstance(v, str):
        return Node("star") if v == "*" else Node("star", q=v[:-2].strip("`")) if v.endswith(".*") else Node("col", name=v)
    raise PySparkTypeError(f"Argument `col` should be a Column or str, got {type(v).__name__}.", "NOT_COLUMN_OR_STR")


def fn(name, *nodes, **p):
    return Column(Node("fn", nodes, fn=name, **p))


class Column:
    def __init__(self, node):
        self._n = node

    def _b(self, op, o):
        return fn(op, self._n, lit_node(o))

    def _r(self, op, o):
        return fn(op, lit_node(o), self._n)

    __eq__ = lambda s, o: s._b("==", o)
    __ne__ = lambda s, o: Column(Node("fn", [s._b("==", o)._n], fn="not"))
    __lt__ = lambda s, o: s._b("<", o)
    __le__ = lambda s, o: s._b("<=", o)
    __gt__ = lambda s, o: s._b(">", o)
    __ge__ = lambda s, o: s._b(">=", o)
    __add__ = lambda s, o: s._b("+", o)
    __radd__ = lambda s, o: s._r("+", o)
    __sub__ = lambda s, o: s._b("-", o)
    __rsub__ = lambda s, o: s._r("-", o)
    __mul__ = lambda s, o: s._b("*", o)
    __rmul__ = lambda s, o: s._r("*", o)
    __truediv__ = lambda s, o: s._b("/", o)
    __rtruediv__ = lambda s, o: s._r("/", o)
    __mod__ = lambda s, o: s._b("%", o)
    __rmod__ = lambda s, o: s._r("%", o)
    __pow__ = lambda s, o: s._b("pow", o)
    __and__ = lambda s, o: s._b("and", o)
    __rand__ = lambda s, o: s._r("and", o)
    __or__ = lambda s, o: s._b("or", o)
    __ror__ = lambda s, o: s._r("or", o)
    __invert__ = lambda s: fn("not", s._n)
    __neg__ = lambda s: fn("neg", s._n)
    __hash__ = None
    eqNullSafe = lambda s, o: s._b("<=>", o)
    bitwiseAND = lambda s, o: s._b("&", o)
    bitwiseOR = lambda s, o: s._b("|", o)
    bitwiseXOR = lambda s, o: s._b("^", o)
    isNull = lambda s: fn("isnull", s._n)
    isNotNull = lambda s: fn("isnotnull", s._n)
    isNaN = lambda s: fn("isnan", s._n)
    like = lambda s, o: s._b("like", o)
    ilike = lambda s, o: s._b("ilike", o)
    rlike = lambda s, o: s._b("rlike", o)
    contains = lambda s, o: s._b("contains", o)
    startswith = lambda s, o: s._b("startswith", o)
    endswith = lambda s, o: s._b("endswith", o)

    def __bool__(self):
        raise PySparkValueError("Cannot convert column into bool: please use '&' for 'and', '|' for 'or', '~' for 'not' when building DataFrame boolean expressions.", "CANNOT_CONVERT_COLUMN_INTO_BOOL")

    def __iter__(self):
        raise PySparkTypeError("Column is not iterable.", "NOT_ITERABLE")

    def __contains__(self, x):
        raise PySparkValueError("Cannot apply 'in' operator against a column", "CANNOT_APPLY_IN_FOR_COLUMN")

    def alias(self, *name, **k):
        if len(name) == 2 and self._n.op == "explode" and self._n.p.get("pos"):
            m = Node("explode", self._n.args)
            m.p = dict(self._n.p, names=name)
            return Column(m)
        if len(name) != 1:
            raise HarnessError("stub: alias with several names")
        return Column(Node("alias", [self._n], name=name[0]))

    name = alias

    def cast(self, t):
        if not isinstance(t, (str, T.DataType)):
            raise PySparkTypeError("Argument `dataType` should be a DataType or str", "NOT_DATATYPE_OR_STR")
        return Column(Node("cast", [self._n], to=norm(t)))

    astype = cast

    def try_cast(self, t):
        return Column(Node("cast", [self._n], to=norm(t), safe=True))

    def _s(self, desc, nf):
        return Column(Node("sort", [self._n], desc=desc, nulls_first=nf))

    asc = lambda s: s._s(False, True)
    asc_nulls_first = asc
    asc_nulls_last = lambda s: s._s(False, False)
    desc = lambda s: s._s(True, False)
    desc_nulls_last = desc
    desc_nulls_first = lambda s: s._s(True, True)

    def isin(self, *vs):
        if len(vs) == 1 and isinstance(vs[0], (list, set, tuple)):
            vs = vs[0]
        return fn("in", self._n, *[lit_node(v) for v in vs])

    def between(self, a, b):
        return (self >= a) & (self <= b)

    def when(self, c, v):
        if not isinstance(c, Column):
            raise PySparkTypeError("Argument `condition` should be a Column", "NOT_COLUMN")
        n = self._n
        if n.op != "case" or len(n.args) % 2:
            raise PySparkException("when() can only be applied on a Column previously generated by when() function")
        return Column(Node("case", n.args + [c._n, lit_node(v)]))

    def otherwise(self, v):
        n = self._n
        if n.op != "case" or len(n.args) % 2:
            raise PySparkException("otherwise() can only be applied on a Column previously generated by when()")
        return Column(Node("case", n.args + [lit_node(v)]))

    def over(self, w):
        return Column(Node("window", [self._n], spec=w._spec, key=(tuple(a.key() for a in w._spec["part"]), tuple(a.key() for a in w._spec["order"]), w._spec.get("frame"))))

    def substr(self, a, b):
        return fn("substring", self._n, lit_node(a), lit_node(b))

    def getItem(self, k):
        if isinstance(k, str):
            return fn("getField", self._n, lit_node(k))
        return fn("item", self._n, lit_node(k))

    def getField(self, k):
        return fn("getField", self._n, lit_node(k))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.substr(k.start, k.stop)
        return self.getItem(k)

    def __repr__(self):
        return f"Column<'{self._n.name()}'>"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in NAMES["Column"]:
            raise HarnessError(f"stub: Column.{name}")
        return fn("getField", self._n, lit_node(name))  # a struct field, as in the real one


class WindowSpec:
    def __init__(self, part=(), order=(), frame=None):
        self._spec = dict(part=list(part), order=list(order), frame=frame)

    def _cols(self, cols):
        if len(cols) == 1 and isinstance(cols[0], (list, tuple)):
            cols = cols[0]
        return [cn(c) for c in cols]

    def partitionBy(self, *c):
        return WindowSpec(self._cols(c), self._spec["order"], self._spec["frame"])

    def orderBy(self, *c):
        return WindowSpec(self._spec["part"], self._cols(c), self._spec["frame"])

    @staticmethod
    def _bound(x):
        return None if abs(x) >= 2**31 - 1 else x

    def rowsBetween(self, a, b):
        return WindowSpec(self._spec["part"], self._spec["order"], ("rows", self._bound(a), self._bound(b)))

    def rangeBetween(self, a, b):
        return WindowSpec(self._spec["part"], self._spec["order"], ("range", self._bound(a), self._bound(b)))

    def __getattr__(self, name):
        unsupported("WindowSpec", name)


class Window:
    unboundedPreceding = -(2**63)
    unboundedFollowing = 2**63 - 1
    currentRow = 0
    partitionBy = staticmethod(lambda *c: WindowSpec().partitionBy(*c))
    orderBy = staticmethod(lambda *c: WindowSpec().orderBy(*c))
    rowsBetween = staticmethod(lambda a, b: WindowSpec().rowsBetween(a, b))
    rangeBetween = staticmethod(lambda a, b: WindowSpec().rangeBetween(a, b))


def expand(nodes, schema):
    """(name, node, qualifiers) of a select list."""
    out = []
    for n in nodes:
        if n.op == "star":
            want = n.p.get("q")
            hit = [(c, Node("at", i=i, t=t, name=c), q) for i, (c, t, q) in enumerate(schema.cols) if want is None or want.lower() in [x.lower() for x in q]]
            if want is not None and not hit:
                i = [k for k, (c, t, _) in enumerate(schema.cols) if c.lower() == want.strip("`").lower() and t.startswith("struct<")]
                if i:
                    out += [(f, Node("fn", [Node("at", i=i[0], t=schema.cols[i[0]][1]), Node("lit", v=f)], fn="getField"), frozenset()) for f, _ in T.split_fields(schema.cols[i[0]][1])]
                    continue
                raise AnalysisException(f"Cannot resolve '{want}.*'", "CANNOT_RESOLVE_STAR_EXPAND")
            out += hit
        elif n.op == "col":
            i, path = schema.locate_node(n)
            if path:
                out.append((path[-1], n, frozenset()))
                continue
            c, t, q = schema.cols[i]
            # the output keeps the case of the reference
            nm = n.p["name"]
            nm = nm.strip("`") if nm.startswith("`") else (nm if nm.lower() == c.lower() else nm.split(".")[-1].strip("`"))
            out.append((nm, n, q))
        else:
            out.append((n.name(), n, frozenset()))
    return out


def F_when(c, v):
    from .functions import when
    return when(c, v)


class DataFrame:
    def __init__(self, plan, session):
        self._plan, self._session = plan, session

    sparkSession = property(lambda s: s._session)

    def _new(self, plan):
        SIM.call("plan", type(plan).__name__)
        if self._session is not None:
            self._session._alive()
        return DataFrame(plan, self._session)

    @property
    def _sch(self):
        return self._plan.schema

    columns = property(lambda s: s._sch.names())
    dtypes = property(lambda s: [(c, t) for c, t, _ in s._sch.cols])
    schema = property(lambda s: T.StructType([T.StructField(c, T.parse(t)) for c, t, _ in s._sch.cols]))

    def _cond(self, c):
        if isinstance(c, Column):
            return c._n
        if isinstance(c, str):
            from .sqlexpr import parse
            return parse(c)._n
        raise PySparkTypeError(f"Argument `condition` should be a Column or str, got {type(c).__name__}.", "NOT_COLUMN_OR_STR")

    def _flat(self, cols):
        if len(cols) == 1 and isinstance(cols[0], (list, tuple)):
            cols = cols[0]
        return cols

    def select(self, *cols):
        nodes = [cn(c) for c in self._flat(cols)]
        if any(x.op == "agg" for n in nodes for x in n.walk() if n.op != "window") and not any(x.op == "window" for n in nodes for x in n.walk()):
            return self.agg(*[Column(n) for n in nodes])
        return self._new(E.Project(self._plan, expand(nodes, self._sch)))

    def selectExpr(self, *exprs):
        from .sqlexpr import parse
        return self.select(*[parse(e) for e in self._flat(exprs)])

    def where(self, c):
        return self._new(E.Filter(self._plan, self._cond(c)))

    filter = where

    def withColumn(self, name, col):
        return self.withColumns({name: col})

    def withColumns(self, m):
        for k, c in m.items():
            if not isinstance(c, Column):
                raise PySparkTypeError(f"Argument `col` should be a Column, got {type(c).__name__}.", "NOT_COLUMN")
            if not isinstance(k, str):
                raise PySparkTypeError("Argument `colName` should be a str", "NOT_STR")
        out, used = [], set()
        for i, (c, t, q) in enumerate(self._sch.cols):
            hit = [k for k in m if k.lower() == c.lower()]
            if hit:
                used.add(hit[0])
                out.append((hit[0], m[hit[0]]._n, frozenset()))
            else:
                out.append((c, Node("at", i=i, t=t), q))
        out += [(k, c._n, frozenset()) for k, c in m.items() if k not in used]
        return self._new(E.Project(self._plan, out))

    def withColumnRenamed(self, a, b):
        return self.withColumnsRenamed({a: b})

    def withColumnsRenamed(self, m):
        low = {k.lower(): v for k, v in m.items()}
        out = [(low.get(c.lower(), c), Node("at", i=i, t=t), q) for i, (c, t, q) in enumerate(self._sch.cols)]
        return self._new(E.Project(self._plan, out))

    def drop(self, *cols):
        gone = set()
        for c in cols:
            if isinstance(c, Column):
                try:
                    gone.add(self._sch.find(c._n.p["name"]))
                except E.AnalysisException as e:
                    if "ambiguous" in str(e):
                        raise
            else:
                gone |= {i for i, (n, _, _) in enumerate(self._sch.cols) if n.lower() == c.lower()}
        return self._new(E.Project(self._plan, [(c, Node("at", i=i, t=t), q) for i, (c, t, q) in enumerate(self._sch.cols) if i not in gone]))

    def orderBy(self, *cols, ascending=True):
        cols = self._flat(cols)
        nodes = []
        asc = ascending if isinstance(ascending, (list, tuple)) else [ascending] * len(cols)
        for c, a in zip(cols, asc):
            n = cn(c)
            if isinstance(c, int):
                raise HarnessError("stub: ordinal in orderBy")
            if n.op != "sort" and not a:
                n = Node("sort", [n], desc=True, nulls_first=False)
            nodes.append(n)
        if not nodes:
            raise PySparkValueError("At least one column must be specified.", "CANNOT_BE_EMPTY")
        try:
            return self._new(E.Sort(self._plan, nodes))
        except AnalysisException:
            # the columns a projection dropped are still there to sort by
            p = self._plan
            if not isinstance(p, E.Project) or p.gen is not None or p.windows:
                raise
            k = len(p.schema.cols)
            seen = {c.lower() for c in p.schema.names()}
            exprs = [(c, nd, q) for (c, _, q), nd in zip(p.schema.cols, p.nodes)]
            extra = [(c, Node("at", i=i, t=t), q) for i, (c, t, q) in enumerate(p.child.schema.cols) if c.lower() not in seen]
            wide = E.Project(p.child, exprs + extra)
            srt = E.Sort(wide, nodes)
            return self._new(E.Project(srt, [(c, Node("at", i=i, t=t), q) for i, (c, t, q) in enumerate(wide.schema.cols[:k])]))

    sort = orderBy

    def limit(self, n):
        if not isinstance(n, int):
            raise PySparkTypeError("limit")
        if n < 0:
            raise AnalysisException("The limit expression must be non-negative", "INVALID_LIMIT_LIKE_EXPRESSION.IS_NEGATIVE")
        return self._new(E.Limit(self._plan, n))

    def offset(self, n):
        return self._new(E.Limit(self._plan, 2**40, n))

    def union(self, o):
        if len(o._sch.cols) != len(self._sch.cols):
            raise AnalysisException("UNION can only be performed on inputs with the same number of columns", "NUM_COLUMNS_MISMATCH")
        return self._union(o, list(range(len(self._sch.cols))), [])

    unionAll = union

    def unionByName(self, o, allowMissingColumns=False):
        a, b = [c.lower() for c in self.columns], [c.lower() for c in o.columns]
        for l in (a, b):
            if len(set(l)) != len(l):
                raise AnalysisException("Found duplicate column(s)", "COLUMN_ALREADY_EXISTS")
        missing = [c for c in a if c not in b]
        if (missing or [c for c in b if c not in a]) and not allowMissingColumns:
            if missing:
                raise AnalysisException(f"Cannot resolve column name {missing[0]} among {b}", "UNRESOLVED_COLUMN_AMONG_FIELD_NAMES")
            raise AnalysisException("UNION can only be performed on inputs with the same number of columns", "NUM_COLUMNS_MISMATCH")
        return self._union(o, [b.index(c) if c in b else None for c in a], [j for j, c in enumerate(b) if c not in a])

    def _union(self, o, m, extra):
        cols, ma, mb = [], [], []
        for i, (c, t, q) in enumerate(self._sch.cols):
            j = m[i]
            u = t if j is None else o._sch.cols[j][1]
            w = E.common_type([t, u])
            cols.append((c, w, frozenset()))
            ma.append((i, lambda v, t=t, w=w: E.conv(v, t, w)))
            mb.append((j, lambda v, t=u, w=w: E.conv(v, t, w)))
        for j in extra:
            c, t, q = o._sch.cols[j]
            cols.append((c, t, frozenset()))
            ma.append((None, None))
            mb.append((j, lambda v: v))
        return self._new(E.Union([self._plan, o._plan], Schema(cols), [ma, mb]))

    def join(self, other, on=None, how=None):
        how = (how or "inner").lower().replace("_", "")
        how = {"leftouter": "left", "outer": "full", "fullouter": "full", "rightouter": "right", "semi": "leftsemi", "anti": "leftanti"}.get(how, how)
        if how not in ("inner", "left", "right", "full", "leftsemi", "leftanti", "cross"):
            raise AnalysisException(f"Unsupported join type '{how}'", "UNSUPPORTED_JOIN_TYPE")
        a, b = self._sch.cols, other._sch.cols
        if isinstance(on, str):
            on = [on]
        if isinstance(on, list) and on and all(isinstance(x, str) for x in on):
            lk = [self._sch.find(k) for k in on]
            rk = [other._sch.find(k) for k in on]
            ts = [E.common_type([a[i][1], b[j][1]]) for i, j in zip(lk, rk)]
            nl = len(a)

            def f(row, e):
                return all(row[i] is not None and row[nl + j] is not None and E.hkey(E.conv(row[i], a[i][1], t)) == E.hkey(E.conv(row[nl + j], b[j][1], t)) for i, j, t in zip(lk, rk, ts))
            if how in ("leftsemi", "leftanti"):
                return self._new(E.Join(self._plan, other._plan, f, how, Schema(list(a)), None))
            cols = [(k, t, frozenset()) for k, t in zip(on, ts)] + [c for i, c in enumerate(a) if i not in lk] + [c for i, c in enumerate(b) if i not in rk]
            return self._new(E.Join(self._plan, other._plan, f, how, Schema(cols), (lk, rk)))
        if isinstance(on, list):
            on = functools.reduce(lambda x, y: x & y, on) if on else None
        both = Schema(list(a) + list(b))
        f = None
        if on is not None:
            t, f = E.compile_(on._n, both)
            E.require_bool(t, "join")
        return self._new(E.Join(self._plan, other._plan, f, how, Schema(list(a)) if how in ("leftsemi", "leftanti") else both, None))

    def crossJoin(self, o):
        return self.join(o, None, "cross")

    def alias(self, name):
        return self._new(E.Project(self._plan, [(c, Node("at", i=i, t=t), frozenset([name])) for i, (c, t, q) in enumerate(self._sch.cols)]))

    def distinct(self):
        return self._new(E.Dedup(self._plan, list(range(len(self._sch.cols)))))

    def dropDuplicates(self, *subset):
        subset = subset[0] if len(subset) == 1 and isinstance(subset[0], (list, tuple)) else (subset or None)
        if subset and subset[0] is None:
            subset = None
        return self._new(E.Dedup(self._plan, [self._sch.find(c) for c in subset] if subset else list(range(len(self._sch.cols)))))

    drop_duplicates = dropDuplicates

    def groupBy(self, *cols):
        return GroupedData(self, [cn(c) for c in self._flat(cols)])

    groupby = groupBy

    def agg(self, *exprs):
        return self.groupBy().agg(*exprs)

    def fillna(self, value, subset=None):
        if not isinstance(value, (bool, int, float, str, dict)):
            raise PySparkTypeError("Argument `value` should be a bool, float, int, str or dict")
        if isinstance(subset, str):
            subset = [subset]
        m = {}
        if isinstance(value, dict):
            for k, v in value.items():
                m[self._sch.find(k)] = v
        else:
            for i, (c, t, _) in enumerate(self._sch.cols):
                if subset is not None and i not in [self._sch.find(s) for s in subset]:
                    continue
                if isinstance(value, bool) and t == "boolean" or isinstance(value, str) and t == "string" or isinstance(value, (int, float)) and not isinstance(value, bool) and E.is_num(t):
                    m[i] = value
        out = []
        for i, (c, t, q) in enumerate(self._sch.cols):
            n = Node("at", i=i, t=t)
            if i in m:
                n = Node("cast", [Node("fn", [n, Node("cast", [lit_node(m[i])], to=t)], fn="coalesce")], to=t)
            out.append((c, n, q))
        return self._new(E.Project(self._plan, out))

    def dropna(self, how="any", thresh=None, subset=None):
        cols = [subset] if isinstance(subset, str) else (subset or self.columns)
        cs = [fn("isnotnull", cn("`" + c + "`")) for c in cols]
        if thresh is not None:
            return self.where(functools.reduce(lambda a, b: a + b, [c.cast("int") for c in cs]) >= thresh)
        return self.where(functools.reduce((lambda a, b: a & b) if how == "any" else (lambda a, b: a | b), cs))

    def replace(self, to_replace, value=None, subset=None):
        if isinstance(to_replace, dict):
            m = to_replace
            if subset is None and isinstance(value, (list, tuple)):
                subset = value
        else:
            ks = list(to_replace) if isinstance(to_replace, (list, tuple)) else [to_replace]
            vs = list(value) if isinstance(value, (list, tuple)) else [value] * len(ks)
            if len(ks) != len(vs):
                raise PySparkValueError("to_replace and value lists should be of the same length", "LENGTH_SHOULD_BE_THE_SAME")
            m = dict(zip(ks, vs))
        kinds = {"b" if isinstance(k, bool) else "n" if isinstance(k, (int, float)) else "s" if isinstance(k, str) else "?" for k in list(m) + [v for v in m.values() if v is not None]}
        if len(kinds) > 1 or "?" in kinds:
            raise PySparkValueError("Mixed type replacements are not supported.", "MIXED_TYPE_REPLACEMENT")
        kind = kinds.pop() if kinds else None
        if isinstance(subset, str):
            subset = [subset]
        only = None if subset is None else {self._sch.find(s) for s in subset}
        out = []
        for i, (c, t, q) in enumerate(self._sch.cols):
            n = Node("at", i=i, t=t)
            fits = {"b": t == "boolean", "n": E.is_num(t), "s": t == "string"}.get(kind, False)
            if fits and (only is None or i in only):
                x, e = Column(n), None
                for a, b in m.items():
                    hit = Column(Node("cast", [lit_node(b)], to=t))
                    e = F_when(x.eqNullSafe(Column(Node("cast", [lit_node(a)], to=t))), hit) if e is None else e.when(x.eqNullSafe(Column(Node("cast", [lit_node(a)], to=t))), hit)
                n = e.otherwise(x)._n
            out.append((c, n, q))
        return self._new(E.Project(self._plan, out))

    def _setop(self, o, keep, all_):
        if len(self._sch.cols) != len(o._sch.cols):
            raise E.AnalysisException("Set operations need the same number of columns", "NUM_COLUMNS_MISMATCH")
        if [t for _, t, _ in self._sch.cols] != [t for _, t, _ in o._sch.cols]:
            raise HarnessError("stub: set operation over different types")
        return self._new(E.SetOp(self._plan, o._plan, keep, all_))

    def subtract(self, other):
        return self._setop(other, False, False)

    def exceptAll(self, other):
        return self._setop(other, False, True)

    def intersect(self, other):
        return self._setop(other, True, False)

    def intersectAll(self, other):
        return self._setop(other, True, True)

    def sortWithinPartitions(self, *cols, ascending=True):
        s = self.orderBy(*cols, ascending=ascending)._plan
        return self._new(E.PartSort(s))

    def repartitionByRange(self, *a):
        return self._new(E.Repart(self._plan))

    @property
    def na(self):
        return Na(self)

    def transform(self, f, *a, **k):
        return f(self, *a, **k)

    # -------- actions
    def _rows(self):
        names = self.columns
        out = []
        for r in E.collect(self._plan):
            x = Row(*r)
            x.__fields__ = names
            out.append(x)
        return out

    def collect(self):
        return self._rows()

    def count(self):
        return len(self._rows())

    def take(self, n):
        return self.limit(n)._rows()

    def head(self, n=None):
        r = self.take(1 if n is None else n)
        return (r[0] if r else None) if n is None else r

    def first(self):
        return self.head()

    def tail(self, n):
        return self._rows()[-n:] if n > 0 else []

    def isEmpty(self):
        return not self.take(1)

    def toLocalIterator(self, prefetchPartitions=False):
        return iter(self._rows())

    def show(self, n=20, truncate=True, vertical=False):
        self.take(n)

    def cache(self):
        return self

    persist = unpersist = checkpoint = localCheckpoint = lambda s, *a, **k: s

    def repartition(self, *a, **k):
        return self._new(E.Repart(self._plan))

    def coalesce(self, n):
        return self._new(E.Repart(self._plan, keep=True))

    def createOrReplaceTempView(self, name):
        SIM.tables[name] = self

    def toDF(self, *names):
        if len(names) != len(self._sch.cols):
            raise PySparkValueError("The number of columns doesn't match", "NUM_COLUMNS_MISMATCH")
        return self._new(E.Project(self._plan, [(k, Node("at", i=i, t=t), frozenset()) for i, (k, (c, t, q)) in enumerate(zip(names, self._sch.cols))]))

    def hint(self, *a, **k):
        return self

    def __getitem__(self, k):
        if isinstance(k, str):
            self._sch.find(k)
            return Column(Node("col", name=k, attr=True))
        if isinstance(k, Column):
            return self.where(k)
        if isinstance(k, (list, tuple)):
            return self.select(*k)
        raise HarnessError("stub: DataFrame.__getitem__")

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name in NAMES["DataFrame"]:
            raise HarnessError(f"stub: DataFrame.{name}")
        if name in self.columns:
            return Column(Node("col", name=name, attr=True))
        raise AttributeError(f"'DataFrame' object has no attribute '{name}'")

    def __repr__(self):
        return "DataFrame[" + ", ".join(f"{c}: {t}" for c, t in self.dtypes) + "]"


class Na:
    def __init__(self, df):
        self.fill, self.drop, self.replace = df.fillna, df.dropna, df.replace

    def __getattr__(self, name):
        unsupported("na", name)


class GroupedData:
    def __init__(self, df, groups):
        self._df, self._g = df, groups

    def agg(self, *exprs):
        if len(exprs) == 1 and isinstance(exprs[0], dict):
            from . import functions
            exprs = [getattr(functions, f)("*" if c == "*" else c) for c, f in exprs[0].items()]
        if not exprs and self._g is not None:
            raise PySparkValueError("exprs should not be empty", "CANNOT_BE_EMPTY")
        for e in exprs:
            if not isinstance(e, Column):
                raise PySparkTypeError("all exprs should be Column", "NOT_LIST_OF_COLUMN")
        gs = []
        for n in self._g:
            if n.op == "star":
                raise HarnessError("stub: groupBy(*)")
            gs.append((expand([n], self._df._sch)[0][0], n))
        return self._df._new(E.Aggregate(self._df._plan, gs, [(e._n.name(), e._n) for e in exprs]))

    def count(self):
        return self.agg(Column(Node("alias", [Node("agg", [Node("lit", v=1)], fn="count")], name="count")))

    def _simple(name):
        def f(self, *cols):
            return self.agg(*[Column(Node("alias", [Node("agg", [cn(c)], fn=name)], name=f"{name}({c})")) for c in cols])
        return f
    sum, avg, mean, min, max = map(_simple, ("sum", "avg", "avg", "min", "max"))

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        unsupported("GroupedData", name)


class SparkSession:
    def __init__(self):
        pass

    class Builder:
        def __init__(self):
            self._o = {}

        def config(self, *a, **k):
            return self
        master = appName = remote = enableHiveSupport = config

        def getOrCreate(self):
            SIM.call("getOrCreate")
            if SIM.session is None:
                SIM.session = SparkSession()
            return SIM.session
        create = getOrCreate

        def __getattr__(self, name):
            if name.startswith("_"):
                raise AttributeError(name)
            unsupported("builder", name)

    class _B:
        def __get__(self, obj, cls):
            return SparkSession.Builder()
    builder = _B()

    @classmethod
    def getActiveSession(cls):
        SIM.call("getActiveSession")
        return SIM.session

    active = getActiveSession

    @property
    def read(self):
        return Reader(self)

    @property
    def catalog(self):
        return Catalog()

    _dead = False

    def _alive(self):
        if self._dead:
            raise IllegalArgumentException("Cannot call methods on a stopped SparkContext.")

    def table(self, name):
        SIM.call("table", name)
        self._alive()
        if not isinstance(name, str):
            raise PySparkTypeError("Argument `tableName` should be a str", "NOT_STR")
        key = ".".join(p.strip("`") for p in name.split("."))
        hit = SIM.tables.get(key)
        if hit is None:
            hit = next((v for k, v in SIM.tables.items() if k.lower() == key.lower()), None)
        if hit is None:
            raise AnalysisException(f"The table or view `{name}` cannot be found.", "TABLE_OR_VIEW_NOT_FOUND")
        if isinstance(hit, DataFrame):
            return DataFrame(hit._plan, self)
        cols, rows = hit
        return DataFrame(E.Table(Schema([(c, t, frozenset([key, key.split(".")[-1]])) for c, t in cols]), rows), self)

    def createDataFrame(self, data, schema=None, *a, **k):
        SIM.call("createDataFrame")
        self._alive()
        data = list(data)
        if isinstance(schema, T.StructType):
            cols = [(f.name, f.dataType.simpleString()) for f in schema.fields]
        elif isinstance(schema, str):
            cols = [(p.split(":")[0].strip(), norm(p.split(":")[1])) if ":" in p else (p.split()[0], norm(p.split()[1])) for p in schema.split(",")]
        else:
            if data and isinstance(data[0], dict):
                names = schema or list(dict.fromkeys(k for d in data for k in d))
                data = [tuple(d.get(n) for n in names) for d in data]
            else:
                names = schema or [f"_{i + 1}" for i in range(len(data[0]))]
            cols = []
            for i, n in enumerate(names):
                t = E.common_type([E.type_of(r[i]) for r in data])
                cols.append((n, "bigint" if t == "int" else t))
        if data and isinstance(data[0], dict):
            data = [tuple(d.get(n) for n, _ in cols) for d in data]
        rows = [tuple(list(x) if isinstance(x, tuple) else x for x in r) for r in data]
        return DataFrame(E.Table(Schema([(c, t, frozenset()) for c, t in cols]), rows), self)

    def range(self, *a):
        self._alive()
        return DataFrame(E.Table(Schema([("id", "bigint", frozenset())]), [(i,) for i in range(*a)]), self)

    def stop(self):
        self._dead = True
        if SIM.session is self:
            SIM.session = None

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        unsupported("SparkSession", name)


class Reader:
    def __init__(self, s):
        self._s = s

    def table(self, name):
        return self._s.table(name)

    def __getattr__(self, name):
        raise HarnessError(f"stub: DataFrameReader.{name}")


class Catalog:
    def tableExists(self, name, db=None):
        SIM.call("tableExists", name)
        return any(k.lower() == name.lower() for k in SIM.tables)

    def __getattr__(self, name):
        raise HarnessError(f"stub: Catalog.{name}")
