"""Further functions of the stand-in: the ones the product does not use today, so that a change that starts to use one of them
is judged by what it does. Validated against real Spark 4 (ANSI) like the rest."""
import base64 as _b64, builtins, calendar, datetime, decimal, math, re, uuid as _uuid, zlib
from core import HarnessError
from .._engine import SIM, Node, FN, AGG, cast, conv as _conv_, common_type, is_int, is_num, hkey, orderable, sort_key
from ..errors import *
from ._impl import Column, cn, lit_node, fn
from .functions import (pub, reg, agg, s1, d1, dtyp, _el, arr_t, _uniq, _cl, _cni, _ag, _ts, _arith, _arith_t, _cmp, _same_t, _whole, _round_t, _range, _sum, _sum_t,
                        _m2, dbl, jre, _date_format, _to_timestamp, _trunc, Interval, _fresh)
from . import functions as F

EPOCH = datetime.datetime(1970, 1, 1)


def null_if(f):
    """Null if any argument is null; the raw values otherwise."""
    return lambda vs, ts, t: None if any(v is None for v in vs) else f(*vs)


def cols(name, *, pub_as=None):
    def f(*a):
        return fn(name, *[cn(x) for x in a])
    for k in (pub_as or name).split():
        pub(k)(f)


def lits(name, *, pub_as=None):
    """First argument a column, the others columns or literals."""
    def f(c, *a):
        return fn(name, cn(c), *[_cl(x) for x in a])
    for k in (pub_as or name).split():
        pub(k)(f)


# ------------------------------------------------------------------ ordering, ids and randomness
for _n in "asc_nulls_first asc_nulls_last desc_nulls_first desc_nulls_last".split():
    pub(_n)(lambda c, _n=_n: getattr(Column(cn(c)), _n)())
pub("broadcast")(lambda df: df)


def _mid(row, e, fs, ts, t):
    if "row" not in e:
        raise HarnessError("stub: monotonically_increasing_id here")
    return (e["part"] << 33) + e["row"]


def _pid(row, e, fs, ts, t):
    if "part" not in e:
        raise HarnessError("stub: spark_partition_id here")
    return e["part"]


def _rnd(n=1 << 20):
    """Values of a fresh draw; without choices, different ones in each call."""
    _rnd.k = (_rnd.k * 1103515245 + 12345) % (1 << 31)
    return SIM.pick(n) if SIM.choices is not None else _rnd.k % n


_rnd.k = 1
reg("monotonically_increasing_id", "bigint", _mid, "lazy")
reg("spark_partition_id", "int", _pid, "lazy")
reg("uuid", "string", lambda vs, ts, t: str(_uuid.UUID(int=_rnd(1 << 20) << 64 | _rnd(1 << 20))), "typed")
reg("randn", "double", lambda vs, ts, t: (_rnd(2001) - 1000) / 400, "typed")
reg("shuffle", arr_t(lambda ts: ts[0]), lambda vs, ts, t: None if vs[0] is None else (SIM.choices.shuffle(vs[0]) if SIM.choices is not None and len(vs[0]) > 1 else list(vs[0])), "typed")
for _n in ("monotonically_increasing_id", "spark_partition_id", "uuid"):
    pub(_n)(lambda *a, _n=_n: fn(_n))
pub("randn")(lambda seed=None: fn("randn"))
pub("shuffle")(lambda c, seed=None: fn("shuffle", cn(c)))

# ------------------------------------------------------------------ arrays
reg("array_remove", arr_t(lambda ts: ts[0]), null_if(lambda a, v: [x for x in a if x is None or hkey(x) != hkey(v)]), "typed")
reg("array_except", arr_t(lambda ts: common_type(ts)), null_if(lambda a, b: [x for x in _uniq(a) if hkey(x) not in {hkey(y) for y in b}]), "typed")
reg("array_intersect", arr_t(lambda ts: common_type(ts)), null_if(lambda a, b: [x for x in _uniq(a) if hkey(x) in {hkey(y) for y in b}]), "typed")
reg("array_repeat", lambda ts, n: f"array<{ts[0]}>", lambda vs, ts, t: None if vs[1] is None else [vs[0]] * builtins.max(vs[1], 0), "typed")
reg("array_prepend", arr_t(lambda ts: ts[0]), lambda vs, ts, t: None if vs[0] is None else [vs[1]] + vs[0], "typed")


def _overlap(vs, ts, t):
    a, b = vs
    if a is None or b is None:
        return None
    if {hkey(x) for x in a if x is not None} & {hkey(x) for x in b if x is not None}:
        return True
    return None if a and b and (None in a or None in b) else False


reg("arrays_overlap", "boolean", _overlap, "typed")


def _insert(vs, ts, t):
    a, p, v = vs
    if a is None or p is None:
        return None
    if p == 0:
        raise SparkRuntimeException("The index 0 is invalid.", "INVALID_INDEX_OF_ZERO")
    if p > 0:
        return (a + [None] * builtins.max(0, p - 1 - len(a)))[:p - 1] + [v] + a[p - 1:]
    i = len(a) + p + 1
    return a[:i] + [v] + a[i:] if i >= 0 else [v] + [None] * -i + a


reg("array_insert", arr_t(lambda ts: ts[0]), _insert, "typed")


def _sequence(vs, ts, t):
    if any(v is None for v in vs):
        return None
    if not all(is_int(x) for x in ts):
        raise HarnessError("stub: sequence of " + ",".join(ts))
    a, b = vs[:2]
    st = vs[2] if len(vs) > 2 else (1 if b >= a else -1)
    if st == 0 and a != b or st > 0 and a > b or st < 0 and a < b:
        raise SparkRuntimeException("Illegal sequence boundaries", "_LEGACY_ERROR_TEMP_3243")
    return [a] if st == 0 else list(range(a, b + (1 if st > 0 else -1), st))


reg("sequence", lambda ts, n: f"array<{common_type(ts)}>", _sequence, "typed")
for _n in "array_except array_intersect arrays_overlap sequence".split():
    cols(_n)
for _n in "array_remove array_prepend".split():
    lits(_n)
pub("array_repeat")(lambda c, n: fn("array_repeat", cn(c), _cni(n)))
pub("array_insert")(lambda a, p, v: fn("array_insert", cn(a), _cni(p), _cl(v)))


def _zip_t(ts, n):
    return "array<struct<" + ",".join(f"{k}:{_el(t)}" for k, t in zip(n.p["names"], ts)) + ">>"


def _zip(vs, ts, t):
    from .types import split_fields
    if None in vs:
        return None
    ks = [k for k, _ in split_fields(t[6:-1])]
    return [dict(zip(ks, [v[i] if i < len(v) else None for v in vs])) for i in range(builtins.max(map(len, vs)))]


reg("arrays_zip", _zip_t, _zip, "typed")


@pub("arrays_zip")
def arrays_zip(*cs):
    cs = cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs
    ns = [cn(c) for c in cs]
    return Column(Node("fn", ns, fn="arrays_zip", names=[n.name() if n.op in ("alias", "col") else str(i) for i, n in enumerate(ns)]))


@pub("aggregate")
def aggregate(c, init, merge, finish=None):
    _fresh[0] += 1
    vs = [f"__v{_fresh[0]}_{i}" for i in range(2)]
    body = merge(*[Column(Node("col", name=v)) for v in vs])._n
    last = finish(Column(Node("col", name=vs[0])))._n if finish else None
    return Column(Node("fold", [cn(c), _cl(init)], vars=vs, body=body, last=last))


F.reduce = aggregate

# ------------------------------------------------------------------ strings


def _pad(left):
    def f(s, n, p=" "):
        n = int(n)
        if n <= len(s):
            return s[:builtins.max(n, 0)]
        if not p:
            return s
        k = (p * n)[:n - len(s)]
        return k + s if left else s + k
    return f


reg("lpad", "string", s1(_pad(True)), "typed")
reg("rpad", "string", s1(_pad(False)), "typed")
lits("lpad")
lits("rpad")


def _fmtnum(v, d):
    if isinstance(d, str):
        raise HarnessError("stub: format_number with a pattern")
    if d < 0:
        return None
    x = decimal.Decimal(repr(v)) if isinstance(v, float) else decimal.Decimal(v)
    return f"{x.quantize(decimal.Decimal(1).scaleb(-d), decimal.ROUND_HALF_EVEN):,f}"


reg("format_number", "string", null_if(lambda v, d: _fmtnum(v, d)), "typed")
pub("format_number")(lambda c, d: fn("format_number", cn(c), lit_node(d)))


def _printf(vs, ts, t):
    f, a = vs[0], vs[1:]
    if f is None:
        return None
    out, k = "", 0
    for m in re.finditer(r"%(%|n)|%([-+ 0,]*)(\d*)(?:\.(\d+))?([sdfxXcoe])|%|[^%]+", f):
        if m[1]:
            out += "%" if m[1] == "%" else "\n"
        elif m[5]:
            if k >= len(a):
                raise SparkRuntimeException("Format specifier " + repr(m[0]), "INTERNAL_ERROR")
            v, k = a[k], k + 1
            if v is None:
                s = "null"
                out += s.rjust(int(m[3] or 0)) if "-" not in m[2] else s.ljust(int(m[3] or 0))
                continue
            if m[5] == "s":
                s = cast(v, "string")
                s = s[:int(m[4])] if m[4] else s
                out += s.rjust(int(m[3] or 0)) if "-" not in m[2] else s.ljust(int(m[3] or 0))
            elif m[5] == "f" and isinstance(v, float):
                fl = m[2].replace("-", "<").replace("<", "<" if "-" in m[2] else "")
                d = int(m[4]) if m[4] else 6
                x = decimal.Decimal(repr(v)).quantize(decimal.Decimal(1).scaleb(-d), decimal.ROUND_HALF_UP)
                s = f"{x:{'+' if '+' in m[2] else ''}{',' if ',' in m[2] else ''}f}"
                w = int(m[3] or 0)
                out += s.ljust(w) if "-" in m[2] else s.rjust(w, "0") if "0" in m[2] else s.rjust(w)
            elif m[5] in "dxXo" and isinstance(v, int) and not isinstance(v, bool):
                s = f"{v:{'+' if '+' in m[2] else ''}{',' if ',' in m[2] else ''}{m[5]}}"
                w = int(m[3] or 0)
                out += s.ljust(w) if "-" in m[2] else (s.zfill(w) if "0" in m[2] else s.rjust(w))
            else:
                raise SparkRuntimeException(f"{m[5]} != {type(v).__name__}", "INTERNAL_ERROR")
        elif m[0] == "%":
            raise SparkRuntimeException("Conversion = '%'", "INTERNAL_ERROR")
        else:
            out += m[0]
    return out


reg("format_string", "string", _printf, "typed")
pub("format_string")(lambda f, *cs: fn("format_string", lit_node(f), *[cn(c) for c in cs]))
pub("printf")(lambda f, *cs: fn("format_string", cn(f), *[cn(c) for c in cs]))
reg("translate", "string", s1(lambda s, a, b: "".join(c if c not in a else (b[a.index(c)] if a.index(c) < len(b) else "") for c in s)), "typed")
pub("translate")(lambda c, a, b: fn("translate", cn(c), lit_node(a), lit_node(b)))


def _locate(x, s, p=1):
    p = int(p)
    return s.find(x, p - 1) + 1 if p > 0 else 0


reg("locate", "int", s1(_locate), "typed")
pub("locate")(lambda x, s, pos=1: fn("locate", lit_node(x), cn(s), lit_node(pos)))
pub("position")(lambda x, s, start=None: fn("locate", cn(x), cn(s), *([cn(start)] if start is not None else [])))
pub("charindex")(F.position)


def _subidx(s, d, n):
    n = int(n)
    if not d or n == 0:
        return ""
    ps = s.split(d)
    return d.join(ps[:n] if n > 0 else ps[n:])


reg("substring_index", "string", s1(_subidx), "typed")
pub("substring_index")(lambda s, d, n: fn("substring_index", cn(s), lit_node(d), lit_node(n)))


def _split_part(s, d, n):
    n = int(n)
    if n == 0:
        raise SparkRuntimeException("The index 0 is invalid.", "INVALID_INDEX_OF_ZERO")
    ps = s.split(d) if d else [s]
    i = n - 1 if n > 0 else len(ps) + n
    return ps[i] if 0 <= i < len(ps) else ""


reg("split_part", "string", s1(_split_part), "typed")
cols("split_part")
reg("btrim", "string", s1(lambda s, c=" ": s.strip(c)), "typed")
cols("btrim")
reg("ascii", "int", s1(lambda s: ord(s[0]) if s else 0), "typed")
cols("ascii")
reg("char", "string", lambda vs, ts, t: None if vs[0] is None else "" if vs[0] < 0 else chr(vs[0] % 256), "typed")
cols("char", pub_as="char chr")


def _overlay(s, r, p, n=-1):
    p, n = int(p), int(n)
    n = len(r) if n < 0 else n
    return s[:builtins.max(p - 1, 0)] + r + s[builtins.max(p - 1 + n, 0):]


reg("overlay", "string", s1(_overlay), "typed")
pub("overlay")(lambda s, r, p, n=-1: fn("overlay", cn(s), cn(r), _cni(p), _cni(n)))
reg("regexp_count", "int", s1(lambda s, r: len([1 for _ in jre(r).finditer(s)])), "typed")
cols("regexp_count")


def _rsub(s, r):
    m = jre(r).search(s)
    return m[0] if m else None


reg("regexp_substr", "string", s1(_rsub), "typed")
cols("regexp_substr")


def _rinstr(s, r):
    m = jre(r).search(s)
    return m.start() + 1 if m else 0


reg("regexp_instr", "int", s1(_rinstr), "typed")
pub("regexp_instr")(lambda s, r, i=None: fn("regexp_instr", cn(s), cn(r)))


def _soundex(s):
    if not s or not s[0].isascii() or not s[0].isalpha():
        return s
    code = {c: d for d, cs in zip("123456", ("BFPV", "CGJKQSXZ", "DT", "L", "MN", "R")) for c in cs}
    out, last = s[0].upper(), code.get(s[0].upper(), "")
    for c in s[1:].upper():
        d = code.get(c, "")
        if d and d != last:
            out += d
        if c not in "HW":
            last = d
    return (out + "000")[:4]


reg("soundex", "string", s1(_soundex), "typed")
cols("soundex")


def _lev(a, b):
    p = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        q = [i]
        for j, y in enumerate(b, 1):
            q.append(builtins.min(p[j] + 1, q[-1] + 1, p[j - 1] + (x != y)))
        p = q
    return p[-1]


reg("levenshtein", "int", s1(_lev), "typed")
pub("levenshtein")(lambda a, b, threshold=None: fn("levenshtein", cn(a), cn(b)) if threshold is None else (_ for _ in ()).throw(HarnessError("stub: levenshtein threshold")))
reg("bit_length", "int", s1(lambda s: 8 * len(s.encode())), "typed")
reg("octet_length", "int", s1(lambda s: len(s.encode())), "typed")
reg("base64", "string", s1(lambda s: _b64.b64encode(s.encode()).decode()), "typed")
reg("crc32", "bigint", s1(lambda s: zlib.crc32(s.encode())), "typed")
reg("hex", "string", lambda vs, ts, t: None if vs[0] is None else f"{vs[0] % (1 << 64):X}" if isinstance(vs[0], int) else cast(vs[0], "string").encode().hex().upper(), "typed")
reg("bin", "string", lambda vs, ts, t: None if vs[0] is None else f"{int(cast(vs[0], 'bigint')) % (1 << 64):b}", "typed")
reg("url_encode", "string", s1(lambda s: __import__("urllib.parse", fromlist=["x"]).quote_plus(s, safe="*-._")), "typed")
# some hash of the values (not the real one's)
reg("hash", "int", lambda vs, ts, t: zlib.crc32(repr([hkey(v) for v in vs]).encode()) - (1 << 31), "typed")
reg("xxhash64", "bigint", lambda vs, ts, t: zlib.crc32(repr([hkey(v) for v in vs]).encode()) * 2654435761 - (1 << 62), "typed")
for _n in "bit_length octet_length base64 crc32 hex bin url_encode hash xxhash64".split():
    cols(_n)


def _conv(s, a, b):
    a, b = int(a), int(b)
    ds = "0123456789abcdefghijklmnopqrstuvwxyz"
    s = s.strip().lower()
    neg, s = s.startswith("-"), s.lstrip("-")
    k = ""
    for c in s:
        if ds.find(c) < 0 or ds.find(c) >= a:
            break
        k += c
    if not k:
        return "0"
    v = int(k, a)
    v = (-v if neg else v) % (1 << 64)
    out = ""
    while v:
        v, r = divmod(v, b)
        out = ds[r] + out
    return out.upper() or "0"


reg("conv", "string", s1(_conv), "typed")
pub("conv")(lambda c, a, b: fn("conv", cn(c), lit_node(a), lit_node(b)))

# ------------------------------------------------------------------ numbers
reg("sign", dtyp, d1(lambda x: math.copysign(1, x) if x else 0.0), "typed")
cols("sign")
pub("positive")(lambda c: Column(cn(c)))
reg("rint", dtyp, d1(lambda x: float(builtins.round(x)) if abs(x) < 2**52 else x), "typed")
reg("expm1", dtyp, d1(math.expm1), "typed")
reg("log1p", dtyp, lambda vs, ts, t: None if vs[0] is None or cast(vs[0], "double") <= -1 else math.log1p(cast(vs[0], "double")), "typed")
reg("sec", dtyp, d1(lambda x: 1 / math.cos(x)), "typed")
reg("csc", dtyp, d1(lambda x: 1 / math.sin(x)), "typed")
reg("cot", dtyp, d1(lambda x: 1 / math.tan(x)), "typed")
for _n in "rint expm1 log1p sec csc cot".split():
    cols(_n)
pub("pi")(lambda: Column(lit_node(math.pi)))
pub("e")(lambda: Column(lit_node(math.e)))
reg("factorial", "bigint", lambda vs, ts, t: None if vs[0] is None or not 0 <= vs[0] <= 20 else math.factorial(vs[0]), "typed")
cols("factorial")


def _bround(vs, ts, t):
    v, sc = _conv_(vs[0], ts[0], t), vs[1]
    if v is None:
        return None
    if isinstance(v, float) and (v != v or builtins.abs(v) == math.inf):
        return v
    r = decimal.Decimal(repr(v)).quantize(decimal.Decimal(1).scaleb(-sc), decimal.ROUND_HALF_EVEN)
    return float(r) if isinstance(v, float) else v if sc >= 0 else int(r)


reg("bround", _round_t, _bround, "typed")
pub("bround")(lambda c, scale=0: fn("bround", cn(c), _cl(0 if scale is None else scale)))
reg("bit_count", "int", lambda vs, ts, t: None if vs[0] is None else builtins.bin(int(vs[0]) % (1 << 64)).count("1"), "typed")
cols("bit_count")
reg("shiftrightunsigned", lambda ts, n: "bigint" if ts[0] == "bigint" else "int", lambda vs, ts, t: None if None in vs else F._wrap((vs[0] % (1 << (64 if t == "bigint" else 32))) >> (vs[1] % (64 if t == "bigint" else 32)), t), "typed")
pub("shiftrightunsigned")(lambda c, n: fn("shiftrightunsigned", cn(c), lit_node(n)))
reg("nanvl", lambda ts, n: "double", lambda vs, ts, t: (lambda a: _conv_(vs[1], ts[1], "double") if a is not None and a != a else a)(_conv_(vs[0], ts[0], "double")), "typed")
cols("nanvl")
pub("equal_null")(lambda a, b: fn("<=>", cn(a), cn(b)))
pub("nullifzero")(lambda c: fn("nullif", cn(c), lit_node(0)))
pub("zeroifnull")(lambda c: fn("coalesce", cn(c), lit_node(0)))
pub("negative")(lambda c: fn("neg", cn(c)))
reg("width_bucket", "bigint", lambda vs, ts, t: None if None in vs else (lambda v, a, b, n: (0 if v < a else n + 1 if v >= b else int((v - a) * n / (b - a)) + 1) if a < b else (0 if v > a else n + 1 if v <= b else int((a - v) * n / (a - b)) + 1))(*[cast(x, "double") for x in vs[:3]], vs[3]), "typed")
pub("width_bucket")(lambda v, a, b, n: fn("width_bucket", cn(v), cn(a), cn(b), _cni(n)))


def trying(op):
    f = _arith(op)

    def impl(vs, ts, t):
        try:
            return f(vs, ts, t)
        except ArithmeticException:
            return None
    return impl


for _n, _o in dict(try_add="+", try_subtract="-", try_multiply="*", try_mod="%").items():
    reg(_n, _arith_t(_o), trying(_o), "typed")
    cols(_n)


def _try(f):
    def impl(vs, ts, t):
        try:
            return f(vs, ts, t)
        except (PySparkException, ArithmeticError):
            return None
    return impl


reg("try_to_timestamp", "timestamp", _try(_to_timestamp), "typed")
pub("try_to_timestamp")(lambda c, f=None: fn("try_to_timestamp", cn(c), *([_cl(f)] if f is not None else [])))
reg("try_element_at", arr_t(lambda ts: _el(ts[0])), lambda vs, ts, t: None if None in vs or builtins.abs(vs[1]) > len(vs[0]) else F._element_at(vs, ts, t), "typed")
pub("try_element_at")(lambda a, i: fn("try_element_at", cn(a), _cl(i)))
reg("to_number_double", "double", lambda vs, ts, t: cast(vs[0], "double"), "typed")
reg("raise_error", "void", lambda vs, ts, t: (_ for _ in ()).throw(SparkRuntimeException(str(vs[0]), "USER_RAISED_EXCEPTION")), "typed")
pub("raise_error")(lambda m: fn("raise_error", lit_node(m)))
reg("assert_true", "void", lambda vs, ts, t: None if vs[0] is True else (_ for _ in ()).throw(SparkRuntimeException("is not true!", "USER_RAISED_EXCEPTION")), "typed")
pub("assert_true")(lambda c, m=None: fn("assert_true", cn(c)))
reg("typeof", "string", lambda vs, ts, t: ts[0], "typed")
cols("typeof")


def _scaled(name, rnd):
    def impl(vs, ts, t):
        if vs[0] is None or vs[1] is None:
            return None
        raise HarnessError(f"stub: {name} with a scale")
    return impl


# ------------------------------------------------------------------ time
def part(name, f):
    reg(name, "int", lambda vs, ts, t: None if vs[0] is None else int(f(_ts(vs[0]))), "typed")
    cols(name)


for _n, _f in dict(year=lambda d: d.year, month=lambda d: d.month, day=lambda d: d.day, dayofmonth=lambda d: d.day, hour=lambda d: d.hour, minute=lambda d: d.minute,
                   second=lambda d: d.second, dayofweek=lambda d: d.isoweekday() % 7 + 1, weekday=lambda d: d.weekday(), dayofyear=lambda d: d.timetuple().tm_yday,
                   quarter=lambda d: (d.month + 2) // 3, weekofyear=lambda d: d.isocalendar()[1]).items():
    part(_n, _f)


def _date(v):
    if v is None:
        return None
    if isinstance(v, str):
        m = re.match(r"\s*(\d{4})-(\d{1,2})-(\d{1,2})(?:[ T].*)?\s*$", v)
        if not m:
            raise SparkRuntimeException(f"The value '{v}' cannot be cast to DATE", "CAST_INVALID_INPUT")
        return datetime.date(*map(int, m.groups()))
    return v.date() if isinstance(v, datetime.datetime) else v


def dated(f):
    return lambda vs, ts, t: None if any(v is None for v in vs) else f(_date(vs[0]), *vs[1:])


reg("to_date", "date", lambda vs, ts, t: None if None in vs else _date(vs[0]) if len(vs) == 1 else _date(_to_timestamp(vs, ts, t)), "typed")
pub("to_date")(lambda c, f=None: fn("to_date", cn(c), *([lit_node(f)] if f is not None else [])))
reg("date_add", "date", dated(lambda d, n: d + datetime.timedelta(days=n)), "typed")
reg("date_sub", "date", dated(lambda d, n: d - datetime.timedelta(days=n)), "typed")
for _n in ("date_add dateadd", "date_sub"):
    for _k in _n.split():
        pub(_k)(lambda c, n, _n=_n: fn(_n.split()[0], cn(c), _cni(n)))
reg("datediff", "int", lambda vs, ts, t: None if None in vs else (_date(vs[0]) - _date(vs[1])).days, "typed")
cols("datediff", pub_as="datediff date_diff")
reg("add_months", "date", dated(lambda d, n: Interval(n, "month").add(datetime.datetime(d.year, d.month, d.day), 1).date()), "typed")
pub("add_months")(lambda c, n: fn("add_months", cn(c), _cni(n)))
reg("last_day", "date", dated(lambda d: d.replace(day=calendar.monthrange(d.year, d.month)[1])), "typed")
cols("last_day")
reg("current_date", "date", lambda vs, ts, t: SIM.now.date(), "typed")
pub("current_date")(lambda: fn("current_date"))
pub("curdate")(lambda: fn("current_date"))
pub("localtimestamp")(lambda: fn("now"))


def _dtrunc(vs, ts, t):
    if None in vs:
        return None
    u = {"mon": "month", "mm": "month", "yyyy": "year", "yy": "year"}.get(vs[1].lower(), vs[1].lower())
    if u not in ("year", "month", "week", "quarter"):
        return None
    return _trunc([u, vs[0]], ts, t).date()


reg("trunc", "date", _dtrunc, "typed")
pub("trunc")(lambda c, f: fn("trunc", cn(c), lit_node(f)))
reg("unix_seconds", "bigint", lambda vs, ts, t: None if vs[0] is None else int((_ts(vs[0]) - EPOCH) // datetime.timedelta(seconds=1)), "typed")
reg("unix_millis", "bigint", lambda vs, ts, t: None if vs[0] is None else int((_ts(vs[0]) - EPOCH) // datetime.timedelta(milliseconds=1)), "typed")
reg("unix_micros", "bigint", lambda vs, ts, t: None if vs[0] is None else int((_ts(vs[0]) - EPOCH) // datetime.timedelta(microseconds=1)), "typed")
reg("unix_date", "int", lambda vs, ts, t: None if vs[0] is None else (_date(vs[0]) - EPOCH.date()).days, "typed")
reg("timestamp_seconds", "timestamp", null_if(lambda v: EPOCH + datetime.timedelta(microseconds=builtins.round(v * 1000000))), "typed")
reg("timestamp_millis", "timestamp", null_if(lambda v: EPOCH + datetime.timedelta(milliseconds=v)), "typed")
reg("timestamp_micros", "timestamp", null_if(lambda v: EPOCH + datetime.timedelta(microseconds=v)), "typed")
for _n in "unix_seconds unix_millis unix_micros unix_date timestamp_seconds timestamp_millis timestamp_micros".split():
    cols(_n)


@pub("unix_timestamp")
def unix_timestamp(c=None, format="yyyy-MM-dd HH:mm:ss"):
    if c is None:
        return fn("unix_timestamp", Node("fn", [], fn="now"))
    if format == "yyyy-MM-dd HH:mm:ss":
        return fn("unix_timestamp", cn(c))
    return fn("unix_timestamp", fn("to_timestamp", cn(c), lit_node(format))._n)


pub("to_unix_timestamp")(lambda c, f=None: fn("unix_timestamp", cn(c)) if f is None else fn("unix_timestamp", fn("to_timestamp", cn(c), cn(f))._n))


def _between(vs, ts, t):
    if None in vs[:2]:
        return None
    a, b = _ts(vs[0]), _ts(vs[1])
    ml = lambda d: calendar.monthrange(d.year, d.month)[1]
    m = (a.year - b.year) * 12 + a.month - b.month
    if a.day == b.day or a.day == ml(a) and b.day == ml(b):
        return float(m)
    sec = lambda d: d.hour * 3600 + d.minute * 60 + d.second
    r = m + ((a.day - b.day) * 86400 + sec(a) - sec(b)) / (31 * 86400)
    return builtins.round(r, 8) if vs[2] else r


reg("months_between", "double", _between, "typed")
pub("months_between")(lambda a, b, roundOff=True: fn("months_between", cn(a), cn(b), lit_node(roundOff)))

# ------------------------------------------------------------------ aggregates


def _prod(xs):
    r = 1.0
    for x in dbl(xs):
        r *= x
    return r


def _moments(xs):
    xs = dbl(xs)
    n, m = len(xs), math.fsum(xs) / len(xs)
    return n, builtins.sum((x - m) ** 2 for x in xs), builtins.sum((x - m) ** 3 for x in xs), builtins.sum((x - m) ** 4 for x in xs)


def _skew(xs):
    n, m2, m3, _ = _moments(xs)
    return None if m2 == 0 else math.sqrt(n) * m3 / math.sqrt(m2 ** 3)


def _kurt(xs):
    n, m2, _, m4 = _moments(xs)
    return None if m2 == 0 else n * m4 / (m2 * m2) - 3


agg("product", "double", _prod, num=True)
agg("skewness", "double", _skew, num=True)
agg("kurtosis", "double", _kurt, num=True)


def _try_sum(xs):
    try:
        return _sum(xs)
    except ArithmeticException:
        return None


agg("try_sum", _sum_t, _try_sum, num=True)
agg("try_avg", "double", F._mean, num=True)


def _bits(op):
    import functools, operator
    return lambda xs: functools.reduce(getattr(operator, op), xs)


for _n, _o in dict(bit_and="and_", bit_or="or_", bit_xor="xor").items():
    agg(_n, lambda ts: ts[0], _bits(_o))
agg("string_agg", "string", lambda vs, p: p["sep"].join(cast(a[0], "string") for a in (vs if not p.get("distinct") else list({hkey(v[0]): v for v in vs}.values()))), whole=True)


def _pair(f):
    def g(vs, p):
        vs = [(cast(a[0], "double"), cast(a[1], "double")) for a in vs if a[0] is not None and a[1] is not None]
        return f(vs) if vs else None
    return g


def _cov(vs):
    n = len(vs)
    mx, my = builtins.sum(a for a, _ in vs) / n, builtins.sum(b for _, b in vs) / n
    return builtins.sum((a - mx) * (b - my) for a, b in vs)


def _corr(vs):
    if len(vs) < 2:
        return None
    d = math.sqrt(_cov([(a, a) for a, _ in vs]) * _cov([(b, b) for _, b in vs]))
    return _cov(vs) / d if d else None


agg("corr", "double", _pair(_corr), whole=True)
agg("covar_pop", "double", _pair(lambda vs: _cov(vs) / len(vs)), whole=True)
agg("covar_samp", "double", _pair(lambda vs: _cov(vs) / (len(vs) - 1) if len(vs) > 1 else None), whole=True)
for _n in "product skewness kurtosis try_sum try_avg bit_and bit_or bit_xor".split():
    pub(_n)(lambda c, _n=_n: _ag(_n, cn(c)))
for _n in "corr covar_pop covar_samp".split():
    pub(_n)(lambda a, b, _n=_n: _ag(_n, cn(a), cn(b)))


def _sagg(distinct):
    def f(c, sep=None):
        if isinstance(sep, Column):
            sep = sep._n.p["v"]
        if isinstance(sep, bytes):
            sep = sep.decode()
        return _ag("string_agg", cn(c), sep=sep or "", distinct=distinct)
    return f


F.string_agg = F.listagg = _sagg(False)
F.string_agg_distinct = F.listagg_distinct = _sagg(True)

# ------------------------------------------------------------------ window functions
pub("ntile")(lambda n: Column(Node("wfn", [], fn="ntile", n=n)))
pub("percent_rank")(lambda: Column(Node("wfn", [], fn="percent_rank")))
pub("cume_dist")(lambda: Column(Node("wfn", [], fn="cume_dist")))
pub("nth_value")(lambda c, offset, ignoreNulls=False: Column(Node("wfn", [cn(c)], fn="nth_value", offset=offset, ignorenulls=ignoreNulls)))
