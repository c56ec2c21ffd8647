"""Data types of the stand-in."""


class DataType:
    _n = "void"

    def simpleString(self):
        return self._n

    def typeName(self):
        return self._n

    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__

    def __hash__(self):
        return hash(self._n)

    def __repr__(self):
        return type(self).__name__ + "()"


def _mk(name, n):
    return type(name, (DataType,), {"_n": n})


NullType, StringType, BooleanType = _mk("NullType", "void"), _mk("StringType", "string"), _mk("BooleanType", "boolean")
IntegerType, LongType, ShortType, ByteType = _mk("IntegerType", "int"), _mk("LongType", "bigint"), _mk("ShortType", "smallint"), _mk("ByteType", "tinyint")
DoubleType, FloatType = _mk("DoubleType", "double"), _mk("FloatType", "float")
TimestampType, DateType = _mk("TimestampType", "timestamp"), _mk("DateType", "date")


class ArrayType(DataType):
    def __init__(self, elementType, containsNull=True):
        self.elementType, self.containsNull = elementType, containsNull

    def simpleString(self):
        return f"array<{self.elementType.simpleString()}>"

    def __hash__(self):
        return hash(self.simpleString())


class StructField:
    def __init__(self, name, dataType, nullable=True, metadata=None):
        self.name, self.dataType, self.nullable = name, dataType, nullable


class StructType(DataType):
    def __init__(self, fields=None):
        self.fields = list(fields or [])

    def add(self, name, t=None, nullable=True):
        self.fields.append(name if t is None else StructField(name, parse(t), nullable))
        return self

    @property
    def names(self):
        return [f.name for f in self.fields]

    fieldNames = lambda self: self.names

    def __iter__(self):
        return iter(self.fields)

    def __len__(self):
        return len(self.fields)

    def __getitem__(self, k):
        return self.fields[k] if isinstance(k, int) else {f.name: f for f in self.fields}[k]

    def __hash__(self):
        return hash(tuple(self.names))

    def simpleString(self):
        return "struct<" + ",".join(f"{f.name}:{f.dataType.simpleString()}" for f in self.fields) + ">"


def split_fields(t):
    """[(name, type)] of struct<...>."""
    body, out, depth, cur = t[7:-1], [], 0, ""
    for ch in body + ",":
        if ch == "," and depth == 0:
            if cur:
                out.append(tuple(cur.split(":", 1)))
            cur = ""
            continue
        depth += (ch == "<") - (ch == ">")
        cur += ch
    return out


_T = {t._n: t for t in (NullType, StringType, BooleanType, IntegerType, LongType, ShortType, ByteType, DoubleType, FloatType, TimestampType, DateType)}
_ALIAS = {"integer": "int", "long": "bigint", "str": "string", "bool": "boolean", "short": "smallint", "byte": "tinyint"}


def norm(t):
    """A type as its simple string."""
    if isinstance(t, DataType):
        t = t.simpleString()
    if isinstance(t, type) and issubclass(t, DataType):
        t = t._n
    t = t.strip()
    low = t.lower()
    low = _ALIAS.get(low, low)
    if low.startswith("array<"):
        return f"array<{norm(low[6:-1])}>"
    if low.startswith("struct<"):
        return t
    if low not in _T:
        from core import HarnessError
        raise HarnessError(f"stub: type {t}")
    return low


def parse(t):
    t = norm(t)
    if t.startswith("array<"):
        return ArrayType(parse(t[6:-1]))
    if t.startswith("struct<"):
        return StructType([StructField(k, parse(v)) for k, v in split_fields(t)])
    return _T[t]()


class Row(tuple):
    def __new__(cls, *a, **k):
        if k:
            r = tuple.__new__(cls, k.values())
            r.__fields__ = list(k)
        else:
            r = tuple.__new__(cls, a)
            r.__fields__ = None
        return r

    def asDict(self, recursive=False):
        return dict(zip(self.__fields__, self))

    def __getitem__(self, k):
        if isinstance(k, str):
            try:
                return tuple.__getitem__(self, self.__fields__.index(k))
            except ValueError:
                raise KeyError(k)
        return tuple.__getitem__(self, k)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        try:
            return tuple.__getitem__(self, self.__fields__.index(k))
        except ValueError:
            raise AttributeError(k)

    def __contains__(self, k):
        return k in (self.__fields__ or ()) or tuple.__contains__(self, k)

    def __repr__(self):
        return "Row(" + ", ".join(f"{k}={v!r}" for k, v in zip(self.__fields__ or range(len(self)), self)) + ")"
