"""Functions of the stand-in. Semantics: Spark 4 with ANSI mode on."""
import builtins, datetime, hashlib, json, math, re, sys
from core import HarnessError
from .. import _engine as E
from .._engine import SIM, Node, FN, AGG, NAMES, cast, conv as _conv_, common_type, is_int, is_num, hkey, orderable, sort_key
from ..errors import *
from . import types as T
from ._impl import Column, cn, lit_node, fn, norm

_me = sys.modules[__name__]


def pub(name):
    def d(f):
        setattr(_me, name, f)
        f.__name__ = name
        return f
    return d


# ------------------------------------------------------------------ basic
def col(name):
    if not isinstance(name, str):
        raise PySparkTypeError("Argument `col` should be a str", "NOT_STR")
    return Column(cn(name))


column = col


def lit(v):
    return v if isinstance(v, Column) else Column(lit_node(v))


def when(c, v):
    if not isinstance(c, Column):
        raise PySparkTypeError("Argument `condition` should be a Column", "NOT_COLUMN")
    return Column(Node("case", [c._n, lit_node(v)]))


def expr(s):
    from .sqlexpr import parse
    return parse(s)


class Interval:
    def __init__(self, n, unit):
        self.n, self.unit = n, unit

    def __repr__(self):
        return f"Interval({self.n},{self.unit})"

    def add(self, ts, sign):
        n = self.n * sign
        if self.unit in ("month", "year", "quarter"):
            m = ts.year * 12 + ts.month - 1 + n * {"month": 1, "quarter": 3, "year": 12}[self.unit]
            y, mo = divmod(m, 12)
            d = builtins.min(ts.day, [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo])
            return ts.replace(year=y, month=mo + 1, day=d)
        return ts + datetime.timedelta(**{self.unit + "s": n})


def asc(c):
    return Column(cn(c)).asc()


def desc(c):
    return Column(cn(c)).desc()


class UDF:
    def __init__(self, f, rt):
        self.func, self.returnType = f, rt
        self.__name__ = getattr(f, "__name__", "udf")
        self.__doc__ = f.__doc__

    def __call__(self, *a, **k):
        if k:
            for v in k.values():
                cn(v)
            raise HarnessError("stub: keyword arguments of a udf")
        return Column(Node("udf", [cn(x) for x in a], f=self.func, t=norm(self.returnType), fn=self.__name__))

    def asNondeterministic(self):
        return self


def udf(f=None, returnType=T.StringType(), *, useArrow=None):
    if f is None or isinstance(f, (str, T.DataType)):
        rt = returnType if f is None else f
        return lambda g: UDF(g, rt)
    return UDF(f, returnType)


# ------------------------------------------------------------------ operators
def _num(t):
    return {"string": "bigint"}.get(t, t)


def reg(name, typ, impl, strict=True):
    FN[name] = (typ, impl, strict)


def _mismatch(op, ts):
    raise AnalysisException(f"Cannot resolve \"{op}\" due to data type mismatch: {ts}", "DATATYPE_MISMATCH.BINARY_OP_DIFF_TYPES")


def _arith_t(op):
    def typ(ts, n):
        a, b = ts
        if "interval" in ts:
            o = b if a == "interval" else a
            if o not in ("timestamp", "date", "void") or op not in "+-":
                _mismatch(op, ts)
            return "timestamp"
        if "timestamp" in ts or "date" in ts:
            if op == "-" and set(ts) <= {"timestamp", "date"}:
                return "interval"
            _mismatch(op, ts)
        for t in ts:
            if not (is_num(t) or t in ("string", "void")):
                _mismatch(op, ts)
        if op == "/":
            return "double"
        if a == "string" and b == "string":
            return "double"
        if "string" in ts:
            o = b if a == "string" else a
            return "double" if o in ("double", "float", "void") else "bigint"
        t = common_type(ts)
        return "double" if t in ("void", "float") else t
    return typ


def _range(v, t):
    lim = {"int": 2**31, "bigint": 2**63, "smallint": 2**15, "tinyint": 2**7}.get(t)
    if lim and not -lim <= v < lim:
        raise ArithmeticException(f"{t} overflow", "ARITHMETIC_OVERFLOW")
    return v


def _arith(op):
    def impl(vs, ts, t):
        a, b = vs
        if a is None or b is None:
            return None
        if isinstance(a, Interval) or isinstance(b, Interval):
            iv, ts_ = (a, b) if isinstance(a, Interval) else (b, a)
            return iv.add(ts_, -1 if op == "-" else 1)
        if t == "interval":
            return (cast(a, "timestamp") - cast(b, "timestamp"))
        w = t
        a, b = _conv_(a, ts[0], w), _conv_(b, ts[1], w)
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "/":
            if b == 0:
                raise ArithmeticException("Division by zero. Use `try_divide` to tolerate divisor being 0 and return NULL instead.", "DIVIDE_BY_ZERO")
            return a / b
        else:
            if b == 0:
                raise ArithmeticException("Remainder by zero.", "REMAINDER_BY_ZERO")
            r = math.fmod(a, b) if isinstance(a, float) else int(math.copysign(builtins.abs(a) % builtins.abs(b), a)) if a else 0
        return _range(r, t)
    return impl


for _o in "+-*/%":
    reg(_o, _arith_t(_o), _arith(_o), "typed")


def _cmp_t(ts, n):
    common_type(ts)
    return "boolean"


def _cmp(op):
    def impl(vs, ts, t):
        a, b = vs
        if op == "<=>":
            if a is None or b is None:
                return a is None and b is None
        elif a is None or b is None:
            return None
        w = common_type(ts)
        a, b = _conv_(a, ts[0], w), _conv_(b, ts[1], w)
        if op in ("==", "<=>"):
            return hkey(a) == hkey(b)
        x, y = orderable(a), orderable(b)
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
    return impl


for _o in ("==", "<", "<=", ">", ">=", "<=>"):
    reg(_o, _cmp_t, _cmp(_o), "typed")


def _bool_t(ts, n):
    for t in ts:
        if t not in ("boolean", "void"):
            raise AnalysisException(f"requires the BOOLEAN type, however has the type {t.upper()}", "DATATYPE_MISMATCH.UNEXPECTED_INPUT_TYPE")
    return "boolean"


def _and(row, e, fs, ts, t):
    a = fs[0](row, e)
    if a is False:
        return False
    b = fs[1](row, e)
    if b is False:
        return False
    return None if a is None or b is None else True


def _or(row, e, fs, ts, t):
    a = fs[0](row, e)
    if a is True:
        return True
    b = fs[1](row, e)
    if b is True:
        return True
    return None if a is None or b is None else False


reg("and", _bool_t, _and, "lazy")
reg("or", _bool_t, _or, "lazy")
reg("not", _bool_t, lambda a: not a)
reg("neg", lambda ts, n: _num(ts[0]), lambda vs, ts, t: None if vs[0] is None else -_conv_(vs[0], ts[0], t), "typed")
reg("isnull", "boolean", lambda vs, ts, t: vs[0] is None, "typed")
reg("isnotnull", "boolean", lambda vs, ts, t: vs[0] is not None, "typed")
reg("isnan", "boolean", lambda vs, ts, t: isinstance(vs[0], float) and vs[0] != vs[0], "typed")


def _in(vs, ts, t):
    w = common_type(ts)
    if vs[0] is None:
        return None
    a = hkey(_conv_(vs[0], ts[0], w))
    null = False
    for v, tt in zip(vs[1:], ts[1:]):
        if v is None:
            null = True
        elif hkey(_conv_(v, tt, w)) == a:
            return True
    return None if null else False


reg("in", _cmp_t, _in, "typed")


def _int_t(ts, n):
    for t in ts:
        if not (is_int(t) or t in ("void", "boolean") and False or t == "void"):
            raise AnalysisException(f"requires INTEGRAL, has {t}", "DATATYPE_MISMATCH.UNEXPECTED_INPUT_TYPE")
    return common_type(ts)


reg("&", _int_t, lambda a, b: a & b)
reg("|", _int_t, lambda a, b: a | b)
reg("^", _int_t, lambda a, b: a ^ b)
reg("bitwise_not", _int_t, lambda a: ~a)


def _wrap(v, t):
    bits = 64 if t == "bigint" else 32
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


reg("shiftleft", lambda ts, n: "bigint" if ts[0] == "bigint" else "int", lambda vs, ts, t: None if None in vs else _wrap(vs[0] << (vs[1] % (64 if t == "bigint" else 32)), t), "typed")
reg("shiftright", lambda ts, n: "bigint" if ts[0] == "bigint" else "int", lambda vs, ts, t: None if None in vs else vs[0] >> (vs[1] % (64 if t == "bigint" else 32)), "typed")

# ------------------------------------------------------------------ strings


def s1(f, rt="string"):
    """All arguments as strings, null if any is null."""
    def impl(vs, ts, t):
        if any(v is None for v in vs):
            return None
        return f(*[cast(v, "string") for v in vs])
    return impl


def like_re(p, esc="\\"):
    out, i = "", 0
    while i < len(p):
        c = p[i]
        if c == esc:
            if i + 1 >= len(p):
                raise SparkRuntimeException("the escape character is not allowed to end with", "INVALID_FORMAT.ESC_AT_THE_END")
            if p[i + 1] not in "_%" and p[i + 1] != esc:
                raise SparkRuntimeException("the escape character is not allowed to precede " + repr(p[i + 1]), "INVALID_FORMAT.ESC_IN_THE_MIDDLE")
            out += re.escape(p[i + 1])
            i += 2
            continue
        out += ".*" if c == "%" else "." if c == "_" else re.escape(c)
        i += 1
    return re.compile(out, re.S)


def jre(p):
    bad = re.search(r"\(\?(P|<(?![=!])(?![A-Za-z][A-Za-z0-9]*>))", p)
    if bad:
        raise SparkRuntimeException(f"The value of parameter(s) `regexp` is invalid: {p!r} (group {bad[0]})", "INVALID_PARAMETER_VALUE.PATTERN")
    try:
        return re.compile(p.replace("(?<", "(?P<").replace("(?P<=", "(?<=").replace("(?P<!", "(?<!"))
    except re.error as ex:
        raise SparkRuntimeException(f"The value of parameter(s) `regexp` is invalid: {p!r} ({ex})", "INVALID_PARAMETER_VALUE.PATTERN")


reg("like", "boolean", s1(lambda a, b: like_re(b).fullmatch(a) is not None), "typed")
reg("ilike", "boolean", s1(lambda a, b: like_re(b.lower()).fullmatch(a.lower()) is not None), "typed")
reg("rlike", "boolean", s1(lambda a, b: jre(b).search(a) is not None), "typed")
reg("contains", "boolean", s1(lambda a, b: b in a), "typed")
reg("startswith", "boolean", s1(lambda a, b: a.startswith(b)), "typed")
reg("endswith", "boolean", s1(lambda a, b: a.endswith(b)), "typed")
reg("upper", "string", s1(str.upper), "typed")
reg("lower", "string", s1(str.lower), "typed")
reg("length", "int", s1(len), "typed")
reg("trim", "string", s1(lambda s, c=" ": s.strip(c)), "typed")
reg("ltrim", "string", s1(lambda s, c=" ": s.lstrip(c)), "typed")
reg("rtrim", "string", s1(lambda s, c=" ": s.rstrip(c)), "typed")
reg("reverse", lambda ts, n: ts[0] if ts[0].startswith("array<") else "string", lambda vs, ts, t: None if vs[0] is None else vs[0][::-1] if isinstance(vs[0], list) else cast(vs[0], "string")[::-1], "typed")
reg("initcap", "string", s1(lambda s: " ".join(w.capitalize() for w in s.split(" "))), "typed")
reg("md5", "string", s1(lambda s: hashlib.md5(s.encode()).hexdigest()), "typed")
reg("sha1", "string", s1(lambda s: hashlib.sha1(s.encode()).hexdigest()), "typed")
reg("sha2", "string", s1(lambda s, b: getattr(hashlib, "sha" + b)(s.encode()).hexdigest()), "typed")
reg("url_decode", "string", s1(lambda s: __import__("urllib.parse", fromlist=["x"]).unquote_plus(s)), "typed")
reg("replace", "string", s1(lambda s, a, b="": s.replace(a, b) if a else s), "typed")
reg("concat_ws", "string", lambda vs, ts, t: None if vs[0] is None else vs[0].join(x for v in vs[1:] if v is not None for x in ([cast(y, "string") for y in v if y is not None] if isinstance(v, list) else [cast(v, "string")])), "typed")


def _substring(vs, ts, t):
    if any(v is None for v in vs):
        return None
    s, pos, ln = cast(vs[0], "string"), vs[1], vs[2] if len(vs) > 2 else 2**31
    start = pos - 1 if pos > 0 else (len(s) + pos if pos < 0 else 0)
    end = start + ln
    return s[builtins.max(0, start):builtins.max(0, end)] if end > start else ""


reg("substring", "string", _substring, "typed")


def _split(vs, ts, t):
    if any(v is None for v in vs):
        return None
    s, p, lim = cast(vs[0], "string"), vs[1], vs[2] if len(vs) > 2 else -1
    r = jre(p)
    out, last = [], 0
    for m in r.finditer(s):
        if lim > 0 and len(out) == lim - 1:
            break
        if m.end() == 0:
            continue
        if m.start() == m.end() and m.start() == len(s):
            continue
        out.append(s[last:m.start()])
        last = m.end()
    return out + [s[last:]]


reg("split", "array<string>", _split, "typed")


def _rextract(vs, ts, t):
    if any(v is None for v in vs):
        return None
    r = jre(vs[1])
    if not 0 <= vs[2] <= r.groups:
        raise SparkRuntimeException(f"group index {vs[2]} out of {r.groups}", "INVALID_PARAMETER_VALUE.REGEX_GROUP_INDEX")
    m = r.search(cast(vs[0], "string"))
    return "" if m is None else (m.group(vs[2]) or "")


reg("regexp_extract", "string", _rextract, "typed")


def _rextract_all(vs, ts, t):
    if any(v is None for v in vs):
        return None
    return [m.group(vs[2]) or "" for m in jre(vs[1]).finditer(cast(vs[0], "string"))]


reg("regexp_extract_all", "array<string>", _rextract_all, "typed")


def _rreplace(vs, ts, t):
    if any(v is None for v in vs[:3]):
        return None
    rep = vs[2]

    def sub(m):
        out, i = "", 0
        while i < len(rep):
            if rep[i] == "\\":
                if i + 1 == len(rep):
                    raise SparkRuntimeException("[INVALID_REGEXP_REPLACE] character to be escaped is missing")
                out += rep[i + 1]
                i += 2
            elif rep[i] == "$":
                if not rep[i + 1:i + 2].isdigit():
                    raise SparkRuntimeException("[INVALID_REGEXP_REPLACE] Illegal group reference")
                k, i = int(rep[i + 1]), i + 2
                if k > m.re.groups:
                    raise SparkRuntimeException(f"[INVALID_REGEXP_REPLACE] No group {k}")
                while rep[i:i + 1].isdigit() and k * 10 + int(rep[i]) <= m.re.groups:
                    k, i = k * 10 + int(rep[i]), i + 1
                out += m.group(k) or ""
            else:
                out += rep[i]
                i += 1
        return out
    return jre(vs[1]).sub(sub, cast(vs[0], "string"))


reg("regexp_replace", "string", _rreplace, "typed")


def _concat_t(ts, n):
    if any(t.startswith("array<") for t in ts):
        return common_type(ts)
    return "string"


def _concat(vs, ts, t):
    if any(v is None for v in vs):
        return None
    if t.startswith("array<"):
        return [x for v in vs for x in v]
    return "".join(cast(v, "string") for v in vs)


reg("concat", _concat_t, _concat, "typed")


def _jpath(s, path):
    try:
        v = json.loads(s)
    except ValueError:
        return None
    if not path.startswith("$"):
        return None
    for name, idx in re.findall(r"\.([^.\[\]]+)|\[(\d+)\]", path[1:]):
        if name:
            if not isinstance(v, dict) or name not in v:
                return None
            v = v[name]
        else:
            if not isinstance(v, list) or int(idx) >= len(v):
                return None
            v = v[int(idx)]
    if v is None:
        return None
    return v if isinstance(v, str) else json.dumps(v, separators=(",", ":"))


reg("get_json_object", "string", s1(_jpath), "typed")


def _jkeys(s):
    try:
        v = json.loads(s)
    except ValueError:
        return None
    return list(v) if isinstance(v, dict) else None


reg("json_object_keys", "array<string>", s1(_jkeys), "typed")

# ------------------------------------------------------------------ conditionals and numbers


def _same_t(ts, n):
    return common_type(ts)


def _coalesce(row, e, fs, ts, t):
    for f, tt in zip(fs, ts):
        v = f(row, e)
        if v is not None:
            return _conv_(v, tt, t)
    return None


reg("coalesce", _same_t, _coalesce, "lazy")
reg("nullif", lambda ts, n: (common_type(ts), ts[0])[1], lambda vs, ts, t: None if _cmp("==")(vs, ts, t) else vs[0], "typed")
reg("nvl2", lambda ts, n: common_type(ts[1:]), lambda vs, ts, t: _conv_(vs[1], ts[1], t) if vs[0] is not None else _conv_(vs[2], ts[2], t), "typed")


def _extreme(sign):
    def f(vs, ts, t):
        xs = [_conv_(v, tt, t) for v, tt in zip(vs, ts) if v is not None]
        return (builtins.max if sign > 0 else builtins.min)(xs, key=orderable) if xs else None
    return f


def _extreme_t(name):
    def f(ts, n):
        if len(ts) < 2:
            raise AnalysisException(f"The `{name}` requires > 1 parameters", "WRONG_NUM_ARGS.WITHOUT_SUGGESTION")
        return common_type(ts)
    return f


reg("greatest", _extreme_t("greatest"), _extreme(1), "typed")
reg("least", _extreme_t("least"), _extreme(-1), "typed")


def d1(f):
    """A function of doubles."""
    def impl(vs, ts, t):
        if any(v is None for v in vs):
            return None
        try:
            return float(f(*[cast(v, "double") for v in vs]))
        except OverflowError:
            return math.inf
        except (ValueError, ZeroDivisionError):
            return math.nan
    return impl


def dtyp(ts, n):
    for t in ts:
        if not (is_num(t) or t in ("string", "void")):
            raise AnalysisException(f"requires DOUBLE, has {t}", "DATATYPE_MISMATCH.UNEXPECTED_INPUT_TYPE")
    return "double"


def _log(*a):
    if any(x <= 0 for x in a):
        return None
    if len(a) == 1:
        return math.log(a[0])
    return math.log(a[1]) / math.log(a[0])


def _logi(vs, ts, t):
    if any(v is None for v in vs):
        return None
    a = [cast(v, "double") for v in vs]
    if any(x <= 0 for x in a):
        return None
    if len(a) == 2 and a[0] == 1:
        return math.nan if a[1] == 1 else math.copysign(math.inf, math.log(a[1]))
    return _log(*a)


def _pow(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        return math.inf


for _n, _f in dict(sqrt=math.sqrt, exp=math.exp, sin=math.sin, cos=math.cos, tan=math.tan, asin=math.asin, acos=math.acos, atan=math.atan, sinh=math.sinh,
                   cosh=math.cosh, tanh=math.tanh, asinh=math.asinh, acosh=math.acosh, atanh=math.atanh, hypot=math.hypot, atan2=math.atan2, pow=_pow,
                   degrees=math.degrees, radians=math.radians, cbrt=math.cbrt, signum=lambda x: math.copysign(1, x) if x else 0.0).items():
    reg(_n, dtyp, d1(_f), "typed")
reg("log", dtyp, _logi, "typed")
reg("abs", lambda ts, n: "double" if ts[0] == "string" else ts[0], lambda vs, ts, t: None if vs[0] is None else builtins.abs(_conv_(vs[0], ts[0], t)), "typed")


def _whole(f):
    def impl(vs, ts, t):
        if vs[0] is None:
            return None
        v = _conv_(vs[0], ts[0], "double") if not is_int(ts[0]) else vs[0]
        return int(f(v)) if v == v and builtins.abs(v) != math.inf else 0
    return impl


reg("ceil", "bigint", _whole(math.ceil), "typed")
reg("floor", "bigint", _whole(math.floor), "typed")


def _round_t(ts, n):
    t = ts[0]
    return "double" if t in ("string", "void") else t


def _round(vs, ts, t):
    import decimal
    v, sc = _conv_(vs[0], ts[0], t), vs[1]
    if v is None:
        return None
    if isinstance(v, float):
        if v != v or builtins.abs(v) == math.inf:
            return v
        return float(decimal.Decimal(repr(v)).quantize(decimal.Decimal(1).scaleb(-sc), decimal.ROUND_HALF_UP))
    if sc >= 0:
        return v
    return int(decimal.Decimal(v).quantize(decimal.Decimal(1).scaleb(-sc), decimal.ROUND_HALF_UP))


reg("round", _round_t, _round, "typed")
reg("try_divide", "double", lambda vs, ts, t: None if None in vs or cast(vs[1], "double") == 0 else cast(vs[0], "double") / cast(vs[1], "double"), "typed")

# ------------------------------------------------------------------ arrays


def _el(t):
    return t[6:-1] if t.startswith("array<") else "void"


def _need_array(ts, i=0):
    if not (ts[i].startswith("array<") or ts[i] == "void"):
        raise AnalysisException(f"requires ARRAY, has {ts[i]}", "DATATYPE_MISMATCH.UNEXPECTED_INPUT_TYPE")


def arr_t(rt):
    def f(ts, n):
        _need_array(ts)
        return rt if isinstance(rt, str) else rt(ts)
    return f


reg("array", lambda ts, n: f"array<{common_type(ts)}>", lambda vs, ts, t: [_conv_(v, tt, t[6:-1]) for v, tt in zip(vs, ts)], "typed")
def _struct_t(ts, n):
    return "struct<" + ",".join(f"{k}:{t}" for k, t in zip(n.p["names"], ts)) + ">"


FN["struct"] = (_struct_t, None, "typed")


def _struct_impl(vs, ts, t):
    from .types import split_fields
    return dict(zip([k for k, _ in split_fields(t)], vs))


FN["struct"] = (_struct_t, _struct_impl, "typed")


def _field_t(ts, n):
    from .types import split_fields
    k = n.args[1].p["v"]
    if not ts[0].startswith("struct<"):
        raise AnalysisException(f"Can't extract a value from {ts[0]}. Need a complex type", "INVALID_EXTRACT_BASE_FIELD_TYPE")
    for name, t in split_fields(ts[0]):
        if name.lower() == str(k).lower():
            return t
    raise AnalysisException(f"No such struct field `{k}`", "FIELD_NOT_FOUND")


reg("getField", _field_t, lambda vs, ts, t: None if vs[0] is None else next(v for k, v in vs[0].items() if k.lower() == vs[1].lower()), "typed")
reg("size", lambda ts, n: (_need_array(ts), "int")[1], lambda vs, ts, t: None if vs[0] is None else len(vs[0]), "typed")


def _slice(vs, ts, t):
    if any(v is None for v in vs):
        return None
    a, s, l = vs
    if s == 0:
        raise SparkRuntimeException("Unexpected value for start in function slice: SQL array indices start at 1.", "INVALID_PARAMETER_VALUE.START")
    if l < 0:
        raise SparkRuntimeException("Unexpected value for length in function slice: must be greater than or equal to 0.", "INVALID_PARAMETER_VALUE.LENGTH")
    i = s - 1 if s > 0 else len(a) + s
    return [] if i < 0 or i >= len(a) else a[i:i + l]


reg("slice", arr_t(lambda ts: ts[0]), _slice, "typed")
reg("get", lambda ts, n: _el(ts[0]), lambda vs, ts, t: None if None in vs or not 0 <= vs[1] < len(vs[0]) else vs[0][vs[1]], "typed")


def _item(vs, ts, t):
    if None in vs:
        return None
    if not 0 <= vs[1] < len(vs[0]):
        raise ArrayIndexOutOfBoundsException(f"The index {vs[1]} is out of bounds. The array has {len(vs[0])} elements.", "INVALID_ARRAY_INDEX")
    return vs[0][vs[1]]


reg("item", lambda ts, n: (_need_array(ts), _el(ts[0]))[1], _item, "typed")


def _element_at(vs, ts, t):
    if None in vs:
        return None
    a, i = vs
    if i == 0:
        raise SparkRuntimeException("The index 0 is invalid.", "INVALID_INDEX_OF_ZERO")
    if builtins.abs(i) > len(a):
        raise ArrayIndexOutOfBoundsException(f"The index {i} is out of bounds.", "INVALID_ARRAY_INDEX_IN_ELEMENT_AT")
    return a[i - 1 if i > 0 else i]


reg("element_at", arr_t(lambda ts: _el(ts[0])), _element_at, "typed")


def _sort_array(vs, ts, t):
    if vs[0] is None:
        return None
    asc_ = vs[1] if len(vs) > 1 else True
    return sorted(vs[0], key=lambda v: sort_key(v, not asc_, asc_))


reg("sort_array", arr_t(lambda ts: ts[0]), _sort_array, "typed")
reg("array_sort", arr_t(lambda ts: ts[0]), lambda vs, ts, t: None if vs[0] is None else sorted(vs[0], key=lambda v: sort_key(v, False, False)), "typed")


def _distinct(vs, ts, t):
    if vs[0] is None:
        return None
    return list({hkey(v): v for v in reversed(vs[0])}.values())[::-1] if False else _uniq(vs[0])


def _uniq(a):
    seen, out = set(), []
    for v in a:
        if hkey(v) not in seen:
            seen.add(hkey(v))
            out.append(v)
    return out


reg("array_distinct", arr_t(lambda ts: ts[0]), _distinct, "typed")
reg("array_contains", "boolean", lambda vs, ts, t: None if None in vs else (True if hkey(vs[1]) in [hkey(x) for x in vs[0]] else (None if None in vs[0] else False)), "typed")
reg("array_join", "string", lambda vs, ts, t: None if vs[0] is None else vs[1].join(cast(v, "string") if v is not None else vs[2] for v in vs[0] if v is not None or len(vs) > 2), "typed")
reg("array_compact", arr_t(lambda ts: ts[0]), lambda vs, ts, t: None if vs[0] is None else [v for v in vs[0] if v is not None], "typed")
reg("array_max", arr_t(lambda ts: _el(ts[0])), lambda vs, ts, t: None if vs[0] is None else builtins.max([v for v in vs[0] if v is not None], key=orderable, default=None), "typed")
reg("array_min", arr_t(lambda ts: _el(ts[0])), lambda vs, ts, t: None if vs[0] is None else builtins.min([v for v in vs[0] if v is not None], key=orderable, default=None), "typed")
reg("array_union", arr_t(lambda ts: common_type(ts)), lambda vs, ts, t: None if None in vs else _uniq(vs[0] + vs[1]), "typed")
reg("array_append", arr_t(lambda ts: ts[0]), lambda vs, ts, t: None if vs[0] is None else vs[0] + [vs[1]], "typed")
reg("flatten", arr_t(lambda ts: _el(ts[0])), lambda vs, ts, t: None if vs[0] is None or None in vs[0] else [x for v in vs[0] for x in v], "typed")
FN["filter"] = lambda arrs, f: None if arrs[0] is None else [x for i, x in enumerate(arrs[0]) if f(x, i) is True]
FN["transform"] = lambda arrs, f: None if arrs[0] is None else [f(x, i) for i, x in enumerate(arrs[0])]


def _quant(stop):
    def g(arrs, f):
        if arrs[0] is None:
            return None
        rs = [f(x, i) for i, x in enumerate(arrs[0])]
        return stop if stop in rs else None if None in rs else not stop
    return g


FN["exists"], FN["forall"] = _quant(True), _quant(False)
FN["zip_with"] = lambda arrs, f: None if None in arrs else [f(arrs[0][i] if i < len(arrs[0]) else None, arrs[1][i] if i < len(arrs[1]) else None) for i in range(builtins.max(map(len, arrs)))]

_fresh = [0]


def _hof(name, arrays, f):
    import inspect
    k = len(inspect.signature(f).parameters)
    _fresh[0] += 1
    vs = [f"__v{_fresh[0]}_{i}" for i in range(k)]
    body = f(*[Column(Node("col", name=v)) for v in vs])
    if not isinstance(body, Column):
        raise PySparkValueError(f"Function `{f.__name__}` should return Column, got {type(body).__name__}.", "HIGHER_ORDER_FUNCTION_SHOULD_RETURN_COLUMN")
    return Column(Node("hof", [cn(a) for a in arrays], fn=name, vars=vs, body=body._n))


def filter(c, f):
    return _hof("filter", [c], f)


def transform(c, f):
    return _hof("transform", [c], f)


def exists(c, f):
    return _hof("exists", [c], f)


def forall(c, f):
    return _hof("forall", [c], f)


def zip_with(a, b, f):
    return _hof("zip_with", [a, b], f)


# ------------------------------------------------------------------ time
def _ts(v):
    return cast(v, "timestamp")


_J = {"yyyy": "%Y", "yy": "%y", "MM": "%m", "MMM": "%b", "MMMM": "%B", "dd": "%d", "HH": "%H", "hh": "%I", "mm": "%M", "ss": "%S", "a": "%p", "EEE": "%a", "EEEE": "%A"}


def _jfmt(f):
    """(strftime format, needs post-processing) of a Java pattern; anything unusual is a gap."""
    out, i = [], 0
    while i < len(f):
        c = f[i]
        if c.isascii() and c.isalpha():
            if c not in "GyDMLdQqEFahKkHmsSVzOXxZ":  # week-based letters and those without a meaning
                raise SparkRuntimeException(f"Unrecognized datetime pattern: {f}", "INVALID_DATETIME_PATTERN")
            j = i
            while j < len(f) and f[j] == c:
                j += 1
            out.append(("f", f[i:j]))
            i = j
        elif c == "'":
            j, lit = i + 1, ""
            while True:
                if j >= len(f):
                    raise SparkRuntimeException(f"Unrecognized datetime pattern: {f}", "INVALID_DATETIME_PATTERN")
                if f[j] != "'":
                    lit += f[j]
                elif f[j + 1:j + 2] == "'":
                    lit += "'"
                    j += 1
                else:
                    break
                j += 1
            out.append(("l", lit or "'"))
            i = j + 1
        elif c in "{}#":
            raise SparkRuntimeException(f"Unrecognized datetime pattern: {f}", "INVALID_DATETIME_PATTERN")
        elif c in "[]":
            i += 1  # an optional section
        else:
            out.append(("l", c))
            i += 1
    return out


def _date_format(vs, ts, t):
    if None in vs:
        return None
    v = _ts(vs[0])
    s = ""
    for k, x in _jfmt(vs[1]):
        if k == "l":
            s += x
        elif x in _J:
            s += v.strftime(_J[x])
        elif set(x) == {"S"}:
            s += f"{v.microsecond:06d}".ljust(9, "0")[:len(x)]
        elif x == "H":
            s += str(v.hour)
        elif x == "d":
            s += str(v.day)
        elif x in ("D", "DD", "DDD"):
            s += str(v.timetuple().tm_yday).rjust(len(x), "0")
        elif x[0] in "xZ":
            s += {"x": "+00", "xxx": "+00:00", "xxxxx": "+00:00"}.get(x, "+0000")
        elif x in ("m", "s", "h"):
            s += str(int(v.strftime({"m": "%M", "s": "%S", "h": "%I"}[x])))
        elif x == "z":
            s += "UTC"
        elif x == "M":
            s += str(v.month)
        else:
            raise HarnessError(f"stub: date pattern {x}")
    return s


reg("date_format", "string", _date_format, "typed")


def _to_timestamp(vs, ts, t):
    if None in vs:
        return None
    if not isinstance(vs[0], str) or len(vs) == 1:
        return _ts(vs[0])
    f = ""
    for k, x in _jfmt(vs[1]):
        if k == "l":
            f += x.replace("%", "%%")
        elif x in _J:
            f += _J[x]
        else:
            raise HarnessError(f"stub: date pattern {x}")
    try:
        return datetime.datetime.strptime(vs[0], f)
    except ValueError:
        raise SparkRuntimeException(f"Text '{vs[0]}' could not be parsed", "CANNOT_PARSE_TIMESTAMP")


reg("to_timestamp", "timestamp", _to_timestamp, "typed")
reg("unix_timestamp", "bigint", lambda vs, ts, t: None if vs[0] is None else cast(_ts(vs[0]), "bigint"), "typed")


def _trunc(vs, ts, t):
    if None in vs:
        return None
    v, u = _ts(vs[1]), vs[0].lower()
    d = dict(microsecond=0)
    if u == "second":
        return v.replace(**d)
    d["second"] = 0
    if u == "minute":
        return v.replace(**d)
    d["minute"] = 0
    if u == "hour":
        return v.replace(**d)
    d["hour"] = 0
    if u == "day":
        return v.replace(**d)
    if u == "week":
        return v.replace(**d) - datetime.timedelta(days=v.weekday())
    d["day"] = 1
    if u == "month":
        return v.replace(**d)
    d["month"] = 1
    if u == "year":
        return v.replace(**d)
    raise HarnessError(f"stub: date_trunc {u}")


reg("date_trunc", "timestamp", _trunc, "typed")
def _window(vs, ts, t):
    v, w = vs
    if v is None:
        return None
    v = _ts(v)
    n, unit = w.split()
    sec = int(n) * {"second": 1, "minute": 60, "hour": 3600, "day": 86400, "week": 604800}[unit.rstrip("s").lower()]
    e0 = datetime.datetime(1970, 1, 1)
    k = (v - e0) // datetime.timedelta(seconds=sec)
    return dict(start=e0 + datetime.timedelta(seconds=sec * k), end=e0 + datetime.timedelta(seconds=sec * (k + 1)))


def _window_t(ts, n):
    if ts[0] not in ("timestamp", "date"):
        raise AnalysisException(f"window requires a TIMESTAMP, has {ts[0]}", "DATATYPE_MISMATCH.UNEXPECTED_INPUT_TYPE")
    return "struct<start:timestamp,end:timestamp>"


reg("window", _window_t, _window, "typed")


def window(c, width, slide=None, start=None):
    if slide is not None or start is not None:
        raise HarnessError("stub: sliding window")
    return fn("window", cn(c), lit_node(width))


reg("now", "timestamp", lambda vs, ts, t: SIM.now, "typed")


def current_timestamp():
    return fn("now")


now = current_timestamp

reg("array_position", "bigint", lambda vs, ts, t: None if None in vs else next((i + 1 for i, x in enumerate(vs[0]) if x is not None and hkey(x) == hkey(vs[1])), 0), "typed")
reg("instr", "int", s1(lambda s, x: s.find(x) + 1), "typed")
reg("repeat", "string", lambda vs, ts, t: None if None in vs else cast(vs[0], "string") * vs[1], "typed")
reg("left", "string", lambda vs, ts, t: None if None in vs else cast(vs[0], "string")[:builtins.max(vs[1], 0)], "typed")
reg("right", "string", lambda vs, ts, t: None if None in vs else cast(vs[0], "string")[-vs[1]:] if vs[1] > 0 else "", "typed")
reg("pmod", _arith_t("%"), lambda vs, ts, t: None if None in vs else _conv_(vs[0], ts[0], t) % _conv_(vs[1], ts[1], t), "typed")
reg("from_unixtime", "string", lambda vs, ts, t: None if None in vs else _date_format([cast(vs[0], "timestamp"), vs[1]], ts, t), "typed")

# ------------------------------------------------------------------ column functions by signature
for _n in """isnull isnotnull isnan upper lower length trim ltrim rtrim reverse initcap md5 sha1 url_decode
             sqrt exp sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh degrees radians cbrt signum abs
             json_object_keys size array_distinct array_sort flatten array_max array_min array_compact coalesce greatest least
             concat nullif nvl2 bitwise_not unix_timestamp""".split():
    def _mk(_n):
        def f(*cols):
            return fn(_n, *[cn(c) for c in cols])
        return f
    pub(_n)(_mk(_n))
isNull = isnull
character_length = char_length = length
lcase, ucase, ceiling, power, substr_ = lower, upper, None, None, None
nvl = ifnull = lambda a, b: fn("coalesce", cn(a), cn(b))


def _cl(v):
    """Column, or a literal of anything else."""
    return v._n if isinstance(v, Column) else lit_node(v)


def _cni(v):
    """Column or name, or a number as a literal."""
    return cn(v) if isinstance(v, (Column, str)) else lit_node(v)


def regexp_like(s, r):
    return fn("rlike", cn(s), cn(r))


rlike = regexp = regexp_like
like = lambda s, p, escapeChar=None: fn("like", cn(s), cn(p))
ilike = lambda s, p, escapeChar=None: fn("ilike", cn(s), cn(p))
contains = lambda s, p: fn("contains", cn(s), cn(p))
startswith = lambda s, p: fn("startswith", cn(s), cn(p))
endswith = lambda s, p: fn("endswith", cn(s), cn(p))
concat_ws = lambda sep, *cols: fn("concat_ws", lit_node(sep), *[cn(c) for c in cols])
split = lambda s, p, limit=-1: fn("split", cn(s), _cl(p), _cni(limit))
regexp_extract = lambda s, p, i: fn("regexp_extract", cn(s), lit_node(p), lit_node(i))
regexp_extract_all = lambda s, r, idx=1: fn("regexp_extract_all", cn(s), cn(r), _cl(idx))
regexp_replace = lambda s, p, r: fn("regexp_replace", cn(s), _cl(p), _cl(r))
replace = lambda s, a, b="": fn("replace", cn(s), cn(a), _cl(b))
substring = lambda s, p, l: fn("substring", cn(s), _cni(p), _cni(l))
substr = lambda s, p, l=None: fn("substring", cn(s), cn(p), *([cn(l)] if l is not None else []))
sha2 = lambda c, b: fn("sha2", cn(c), lit_node(b))
get_json_object = lambda c, p: fn("get_json_object", cn(c), lit_node(p))
slice = lambda a, s, l: fn("slice", cn(a), _cni(s), _cni(l))
get = lambda a, i: fn("get", cn(a), _cni(i))
element_at = lambda a, i: fn("element_at", cn(a), _cl(i))
sort_array = lambda a, asc=True: fn("sort_array", cn(a), lit_node(asc))
array_contains = lambda a, v: fn("array_contains", cn(a), _cl(v))
array_append = lambda a, v: fn("array_append", cn(a), _cl(v))
array_union = lambda a, b: fn("array_union", cn(a), cn(b))
array_join = lambda a, d, r=None: fn("array_join", cn(a), lit_node(d), *([lit_node(r)] if r is not None else []))
array = lambda *cols: fn("array", *[cn(c) for c in (cols[0] if len(cols) == 1 and isinstance(cols[0], (list, tuple)) else cols)])
round = lambda c, scale=0: fn("round", cn(c), _cl(0 if scale is None else scale))
log = lambda a, b=None: fn("log", _cni(a)) if b is None else fn("log", _cni(a) if isinstance(a, (Column, str)) else lit_node(float(a)), cn(b))
ln = lambda c: fn("log", cn(c))
pow = power = lambda a, b: fn("pow", _cni(a), _cni(b))
hypot = lambda a, b: fn("hypot", _cni(a), _cni(b))
atan2 = lambda a, b: fn("atan2", _cni(a), _cni(b))
array_position = lambda c, v: fn("array_position", cn(c), _cl(v))
array_size = lambda c: fn("size", cn(c))
cardinality = array_size
instr = lambda s, x: fn("instr", cn(s), _cl(x))
repeat = lambda s, n: fn("repeat", cn(s), _cni(n))
left = lambda s, n: fn("left", cn(s), cn(n))
right = lambda s, n: fn("right", cn(s), cn(n))
pmod = lambda a, b: fn("pmod", _cni(a), _cni(b))
log10 = lambda c: fn("log", lit_node(10.0), cn(c))
log2 = lambda c: fn("log", lit_node(2.0), cn(c))
from_unixtime = lambda c, f="yyyy-MM-dd HH:mm:ss": fn("from_unixtime", cn(c), lit_node(f))
negate = negative = lambda c: fn("neg", cn(c))
try_divide = lambda a, b: fn("try_divide", cn(a), cn(b))
shiftleft = lambda c, b: fn("shiftleft", cn(c), lit_node(b))
shiftright = lambda c, b: fn("shiftright", cn(c), lit_node(b))
date_format = lambda c, f: fn("date_format", cn(c), lit_node(f))
date_trunc = lambda f, c: fn("date_trunc", lit_node(f), cn(c))
to_timestamp = lambda c, f=None: fn("to_timestamp", cn(c), *([lit_node(f)] if f is not None else []))


def _whole_fn(n):
    def f(c, scale=None):
        if scale is not None:
            raise HarnessError(f"stub: {n} with a scale")
        return fn(n, cn(c))
    return f


ceil = ceiling = _whole_fn("ceil")
floor = _whole_fn("floor")


def struct(*cols):
    cols = cols[0] if len(cols) == 1 and isinstance(cols[0], (list, tuple)) else cols
    ns = [cn(c) for c in cols]
    return Column(Node("fn", ns, fn="struct", names=[n.name() if n.op in ("alias", "col") else f"col{i + 1}" for i, n in enumerate(ns)]))


def rand(seed=None):
    return Column(Node("fn", [], fn="rand"))


def _rand(vs, ts, t):
    return SIM.pick(1 << 20) / (1 << 20)


reg("rand", "double", _rand, "typed")


def explode(c):
    return Column(Node("alias", [Node("explode", [cn(c)])], name="col"))


def posexplode(c):
    return Column(Node("explode", [cn(c)], pos=True))


def posexplode_outer(c):
    return Column(Node("explode", [cn(c)], outer=True, pos=True))


def explode_outer(c):
    return Column(Node("alias", [Node("explode", [cn(c)], outer=True)], name="col"))


# ------------------------------------------------------------------ aggregates
class Agg:
    """Keeps the argument tuples in the order in which they arrive."""
    skip_null = True
    needs_num = False

    def __init__(self, p):
        self.p = p
        self.v = []

    def add(self, *a):
        if self.skip_null and a and a[0] is None:
            return
        self.v.append(a)

    def merge(self, o):
        self.v += o.v

    def result(self):
        return self.f([a[0] for a in self.v]) if self.v or self.on_empty else self.empty()

    on_empty = False

    def empty(self):
        return None


def agg(name, typ, f, num=False, on_empty=False, skip_null=True, whole=False):
    def t(ts):
        if num and not (is_num(ts[0]) or ts[0] in ("string", "void")):
            raise AnalysisException(f"{name} requires NUMERIC, has {ts[0]}", "DATATYPE_MISMATCH.UNEXPECTED_INPUT_TYPE")
        return typ(ts) if callable(typ) else typ

    class A(Agg):
        def __init__(self, p):
            super().__init__(p)
            self.skip_null = skip_null if not callable(skip_null) else skip_null(p)

        def result(self):
            if not self.v and not on_empty:
                return None
            return f(self.v, self.p) if whole else f([a[0] for a in self.v])
    A.typ = staticmethod(t)
    A.on_empty = on_empty
    AGG[name] = A


def dbl(xs):
    return [cast(x, "double") for x in xs]


def _sum_t(ts):
    return "bigint" if is_int(ts[0]) else "double"


def _sum(xs):
    if isinstance(xs[0], int):
        return _range(builtins.sum(xs), "bigint")
    s = 0.0
    for x in dbl(xs):
        s += x
    return s




def _mean(xs):
    s = 0.0
    for x in dbl(xs):
        s += x
    return s / len(xs)


def _m2(xs):
    n = mean = m2 = 0.0
    for x in dbl(xs):
        n += 1
        d = x - mean
        mean += d / n
        m2 += d * (x - mean)
    return n, m2


agg("count", "bigint", len, on_empty=True)
agg("sum", _sum_t, _sum, num=True)
agg("avg", "double", _mean, num=True)
agg("min", lambda ts: ts[0], lambda xs: builtins.min(xs, key=orderable))
agg("max", lambda ts: ts[0], lambda xs: builtins.max(xs, key=orderable))
agg("count_distinct", "bigint", lambda vs, p: len({tuple(hkey(x) for x in a) for a in vs if None not in a}), on_empty=True, whole=True)
agg("sum_distinct", _sum_t, lambda xs: _sum(_uniq(xs)), num=True)
agg("count_if", "bigint", lambda xs: builtins.sum(x is True for x in xs), on_empty=True)
agg("var_samp", "double", lambda xs: None if len(xs) < 2 else _m2(xs)[1] / (len(xs) - 1), num=True)
agg("var_pop", "double", lambda xs: _m2(xs)[1] / len(xs), num=True)
agg("stddev_samp", "double", lambda xs: None if len(xs) < 2 else math.sqrt(_m2(xs)[1] / (len(xs) - 1)), num=True)
agg("stddev_pop", "double", lambda xs: math.sqrt(_m2(xs)[1] / len(xs)), num=True)
agg("collect_list", lambda ts: f"array<{ts[0]}>", list, on_empty=True)
agg("collect_set", lambda ts: f"array<{ts[0]}>", lambda xs: _uniq(xs), on_empty=True)
agg("first", lambda ts: ts[0], lambda vs, p: vs[0][0], whole=True, skip_null=lambda p: bool(p.get("ignorenulls")))
agg("last", lambda ts: ts[0], lambda vs, p: vs[-1][0], whole=True, skip_null=lambda p: bool(p.get("ignorenulls")))
agg("any_value", lambda ts: ts[0], lambda vs, p: vs[0][0], whole=True, skip_null=lambda p: bool(p.get("ignorenulls")))
agg("bool_and", "boolean", lambda xs: all(xs))
agg("bool_or", "boolean", lambda xs: any(xs))


def _by(sign):
    def f(vs, p):
        vs = [a for a in vs if a[1] is not None]
        if not vs:
            return None
        best = vs[0]
        for a in vs[1:]:
            x, y = orderable(a[1]), orderable(best[1])
            if (x > y) if sign > 0 else (x < y):
                best = a
        return best[0]
    return f


agg("max_by", lambda ts: ts[0], _by(1), whole=True, skip_null=False)
agg("min_by", lambda ts: ts[0], _by(-1), whole=True, skip_null=False)


def _approx_distinct(vs, p):
    """Estimates like the real one: registers chosen by a hash, linear counting for small sets."""
    import zlib
    rsd = p.get("rsd") or .05
    m = 1 << builtins.max(int(math.ceil(2 * math.log2(1.106 / rsd))), 4)
    hs = {zlib.crc32(repr(hkey(a[0])).encode()) for a in vs}
    v = m - len({h % m for h in hs})
    return int(m * math.log(m / v) + .5) if v else len(hs)


agg("approx_count_distinct", "bigint", _approx_distinct, on_empty=True, whole=True)


def _mode(vs, p):
    cnt = {}
    for a in vs:
        cnt.setdefault(hkey(a[0]), [0, a[0]])[0] += 1
    best = builtins.max(c for c, _ in cnt.values())
    c = [v for n, v in cnt.values() if n == best]
    return builtins.min(c, key=orderable) if p.get("deterministic") else c[0]


agg("mode", lambda ts: ts[0], _mode, whole=True)


def _percentile(vs, p):
    xs = sorted(dbl(a[0] for a in vs))
    pos = (len(xs) - 1) * p["q"]
    lo = math.floor(pos)
    hi = math.ceil(pos)
    return xs[lo] if lo == hi else (hi - pos) * xs[lo] + (pos - lo) * xs[hi]


def _papprox(vs, p):
    xs = sorted((a[0] for a in vs), key=orderable)
    k = math.ceil(p["q"] * len(xs))
    # an accuracy below the number of values allows for an error of that many ranks
    k -= len(xs) // p["acc"]
    return xs[builtins.max(k, 1) - 1]


agg("percentile", "double", _percentile, num=True, whole=True)
agg("percentile_approx", lambda ts: ts[0], _papprox, num=True, whole=True)


def _ag(name, *nodes, **p):
    return Column(Node("agg", nodes, fn=name, **p))


for _n in "avg min max sum_distinct count_if var_samp var_pop stddev_samp stddev_pop collect_list collect_set bool_and bool_or".split():
    def _mk2(_n):
        return lambda c: _ag(_n, cn(c))
    pub(_n)(_mk2(_n))
sum = lambda c: _ag("sum", cn(c))
mean = avg
stddev = std = stddev_samp
variance = var_samp
sumDistinct = sum_distinct
array_agg = collect_list
every, some = bool_and, bool_or


def count(c):
    n = cn(c)
    return _ag("count", Node("lit", v=1) if n.op == "star" else n)


def count_distinct(c, *cs):
    return _ag("count_distinct", cn(c), *[cn(x) for x in cs])


countDistinct = count_distinct
approx_count_distinct = lambda c, rsd=None: _ag("approx_count_distinct", cn(c), rsd=rsd)
approxCountDistinct = approx_count_distinct
first = lambda c, ignorenulls=False: _ag("first", cn(c), ignorenulls=ignorenulls)
last = lambda c, ignorenulls=False: _ag("last", cn(c), ignorenulls=ignorenulls)
first_value = lambda c, ignoreNulls=None: _ag("first", cn(c), ignorenulls=bool(ignoreNulls))
last_value = lambda c, ignoreNulls=None: _ag("last", cn(c), ignorenulls=bool(ignoreNulls))
any_value = lambda c, ignoreNulls=None: _ag("any_value", cn(c), ignorenulls=bool(ignoreNulls))
max_by = lambda c, o: _ag("max_by", cn(c), cn(o))
min_by = lambda c, o: _ag("min_by", cn(c), cn(o))
mode = lambda c, deterministic=False: _ag("mode", cn(c), deterministic=deterministic)


def _rank(q):
    if isinstance(q, Column) and q._n.op == "lit":
        q = q._n.p["v"]
    if isinstance(q, bool) or not isinstance(q, (int, float)):
        raise HarnessError("stub: percentile of several ranks")
    return float(q)


def percentile(c, q, frequency=1):
    return _ag("percentile", cn(c), q=_rank(q))


def percentile_approx(c, q, accuracy=10000):
    if isinstance(accuracy, Column) and accuracy._n.op == "lit":
        accuracy = accuracy._n.p["v"]
    if isinstance(accuracy, bool) or not isinstance(accuracy, int) or accuracy <= 0:
        raise HarnessError("stub: the accuracy of percentile_approx")
    return _ag("percentile_approx", cn(c), q=_rank(q), acc=accuracy)


approx_percentile = percentile_approx
median = lambda c: _ag("percentile", cn(c), q=0.5)

# ------------------------------------------------------------------ window functions
row_number = lambda: Column(Node("wfn", [], fn="row_number"))
rank = lambda: Column(Node("wfn", [], fn="rank"))
dense_rank = lambda: Column(Node("wfn", [], fn="dense_rank"))
lag = lambda c, offset=1, default=None: Column(Node("wfn", [cn(c)], fn="lag", offset=offset, default=default))
lead = lambda c, offset=1, default=None: Column(Node("wfn", [cn(c)], fn="lead", offset=offset, default=default))


def __getattr__(name):
    if name in NAMES["functions"]:
        raise HarnessError(f"stub: functions.{name}")
    raise AttributeError(f"module 'pyspark.sql.functions' has no attribute {name!r}")


from . import more  # noqa: E402,F401
