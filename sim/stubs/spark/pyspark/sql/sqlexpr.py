"""A small parser of SQL expressions for expr(), selectExpr() and textual conditions."""
import re
from core import HarnessError
from .._engine import Node
from ..errors import ParseException
from ._impl import Column, lit_node, fn

TOK = re.compile(r"""\s*(?:(?P<num>\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+|\d+(?:[eE][+-]?\d+)?)(?P<suf>[LlDd](?!\w))?|(?P<str>'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*")
    |(?P<bt>`(?:[^`]|``)*`)|(?P<id>[A-Za-z_]\w*)|(?P<op><=>|->|\|\||<>|!=|==|<=|>=|[-+*/%()=<>,.\[\]&|^~!]))""", re.X)
STOP = {"and", "or", "not", "is", "null", "like", "rlike", "ilike", "regexp", "in", "between", "then", "when", "else", "end", "as", "asc", "desc", "over", "from", "div"}


class P:
    def __init__(self, text):
        self.text, self.t, i = text, [], 0
        text = text.rstrip()
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise ParseException(f"Syntax error at or near {text[i:i + 10]!r}", "PARSE_SYNTAX_ERROR")
            k = m.lastgroup if m.lastgroup != "suf" else "num"
            self.t.append((k, m[k], m["suf"]))
            i = m.end()
        self.i = 0

    def peek(self, *words):
        if self.i >= len(self.t):
            return False if words else None
        k, v, _ = self.t[self.i]
        if not words:
            return k, v
        return (v.lower() if k == "id" else v if k == "op" else None) in words

    def take(self, *words):
        if self.peek(*words):
            self.i += 1
            return self.t[self.i - 1][1].lower()
        return None

    def need(self, *words):
        w = self.take(*words)
        if w is None:
            near = self.t[self.i][1] if self.i < len(self.t) else "end of input"
            raise ParseException(f"Syntax error at or near {near!r} in {self.text!r}", "PARSE_SYNTAX_ERROR")
        return w

    def whole(self):
        e = self.or_()
        if self.take("as") or (self.peek() and self.peek()[0] in ("id", "bt")):
            k, v = self.peek() or (None, None)
            if k not in ("id", "bt"):
                self.need("name")
            self.i += 1
            e = e.alias(v.strip("`"))
        if self.i < len(self.t):
            self.need("end")
        return e

    def or_(self):
        a = self.and_()
        while self.take("or"):
            a = a | self.and_()
        return a

    def and_(self):
        a = self.not_()
        while self.take("and"):
            a = a & self.not_()
        return a

    def not_(self):
        if self.take("not", "!"):
            return ~self.not_()
        return self.pred()

    def pred(self):
        from . import functions as F
        a = self.bit()
        while True:
            op = self.take("=", "==", "<>", "!=", "<", "<=", ">", ">=", "<=>")
            if op:
                b = self.bit()
                a = {"=": a.__eq__, "==": a.__eq__, "<>": a.__ne__, "!=": a.__ne__, "<": a.__lt__, "<=": a.__le__, ">": a.__gt__, ">=": a.__ge__, "<=>": a.eqNullSafe}[op](b)
                continue
            if self.take("is"):
                neg = self.take("not")
                if self.take("null"):
                    a = a.isNotNull() if neg else a.isNull()
                else:
                    w = self.need("true", "false")
                    a = a.eqNullSafe(w == "true")
                    a = ~a if neg else a
                continue
            k = self.i
            neg = self.take("not")
            op = self.take("like", "ilike", "rlike", "regexp", "in", "between")
            if op is None:
                self.i = k
                return a
            if op in ("like", "ilike", "rlike", "regexp"):
                r = getattr(a, op if op != "regexp" else "rlike")(self.bit())
            elif op == "in":
                self.need("(")
                r = a.isin(*self.args())
            else:
                lo = self.bit()
                self.need("and")
                r = a.between(lo, self.bit())
            a = ~r if neg else r

    def bit(self):
        a = self.sum()
        while True:
            op = self.take("&", "|", "^")
            if not op:
                return a
            a = {"&": a.bitwiseAND, "|": a.bitwiseOR, "^": a.bitwiseXOR}[op](self.sum())

    def sum(self):
        from . import functions as F
        a = self.term()
        while True:
            op = self.take("+", "-", "||")
            if not op:
                return a
            b = self.term()
            a = a + b if op == "+" else a - b if op == "-" else F.concat(a, b)

    def term(self):
        a = self.unary()
        while True:
            op = self.take("*", "/", "%", "div")
            if not op:
                return a
            b = self.unary()
            if op == "div":
                raise HarnessError("stub: div")
            a = a * b if op == "*" else a / b if op == "/" else a % b

    def unary(self):
        if self.take("-"):
            e = self.unary()
            if e._n.op == "lit" and isinstance(e._n.p["v"], (int, float)):
                return Column(lit_node(-e._n.p["v"]))
            return -e
        if self.take("+"):
            return self.unary()
        if self.take("~"):
            return fn("bitwise_not", self.unary()._n)
        a = self.atom()
        while self.take("["):
            i = self.or_()
            self.need("]")
            a = fn("item", a._n, i._n)
        return a

    def args(self):
        out = []
        if self.take(")"):
            return out
        while True:
            k = self.i
            lam = self.lam()
            if lam is None:
                self.i = k
                out.append(self.or_())
            else:
                out.append(lam)
            if not self.take(","):
                self.need(")")
                return out

    def lam(self):
        k = self.peek()
        names = []
        if k and k[0] == "id":
            self.i += 1
            names = [k[1]]
        elif self.take("("):
            while self.peek() and self.peek()[0] == "id":
                names.append(self.peek()[1])
                self.i += 1
                if not self.take(","):
                    break
            if not self.take(")"):
                return None
        if not names or not self.take("->"):
            return None
        start = self.i
        vars_ = getattr(self, "vars", {})
        end = []

        def body(cols):
            keep, self.i, old = self.i, start, getattr(self, "vars", {})
            self.vars = dict(vars_, **dict(zip(names, cols)))
            r = self.or_()
            end.append(self.i)
            self.i, self.vars = keep, old
            return r
        body([Column(Node("col", name=n)) for n in names])
        self.i = end[0]
        if len(names) == 1:
            return lambda x: body([x])
        return lambda x, y: body([x, y])

    def atom(self):
        from . import functions as F
        if self.peek() is None:
            self.need("expression")
        k, v, suf = self.t[self.i]
        if k == "num":
            self.i += 1
            if suf in ("D", "d") or "e" in v.lower():
                return F.lit(float(v))
            if "." in v:
                return F.lit(float(v))  # a decimal in the real one
            return F.lit(int(v))
        if k == "str":
            self.i += 1
            s = v[1:-1].replace(v[0] * 2, v[0])
            s = re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m[1], "\\" + m[1] if m[1] in "%_" else m[1]), s, flags=re.S)
            return F.lit(s)
        if k == "op":
            if v == "*":
                self.i += 1
                return Column(Node("star"))
            self.need("(")
            e = self.or_()
            self.need(")")
            return e
        if k == "id":
            w = v.lower()
            nxt = self.t[self.i + 1][1] if self.i + 1 < len(self.t) else None
            if w in ("true", "false", "null") and nxt != "(":
                self.i += 1
                return F.lit({"true": True, "false": False, "null": None}[w])
            if w == "case":
                self.i += 1
                return self.case()
            if w == "interval":
                return self.interval()
            if w in ("cast", "try_cast") and nxt == "(":
                self.i += 2
                e = self.or_()
                self.need("as")
                t = self.typ()
                self.need(")")
                return e.cast(t) if w == "cast" else e.try_cast(t)
            if w in ("current_timestamp", "current_date", "now") and nxt != "(":
                self.i += 1
                return getattr(F, w)()
            if nxt == "(" and self.t[self.i + 1][0] == "op":
                self.i += 2
                return self.call(w)
            if w in getattr(self, "vars", {}) or v in getattr(self, "vars", {}):
                self.i += 1
                return self.vars.get(v) if v in self.vars else self.vars[w]
            if w in STOP:
                self.need("expression")
        name = []
        while True:
            k, v, _ = self.t[self.i]
            if k not in ("id", "bt"):
                if v == "*" and name:
                    self.i += 1
                    return Column(Node("star", q=".".join(name)))
                self.need("name")
            self.i += 1
            name.append(v)
            if not (self.peek(".") and self.take(".")):
                return F.col(".".join(name))

    def typ(self):
        k, v = self.peek()
        self.i += 1
        if self.take("("):
            while not self.take(")"):
                self.i += 1
            raise HarnessError("stub: a type with parameters")
        if self.take("<"):
            t = self.typ()
            self.need(">")
            return f"{v.lower()}<{t}>"
        return v.lower()

    def case(self):
        from . import functions as F
        subj = None if self.peek("when") else self.or_()
        r = None
        while self.take("when"):
            c = self.or_()
            c = c if subj is None else subj == c
            self.need("then")
            v = self.or_()
            r = F.when(c, v) if r is None else r.when(c, v)
        if self.take("else"):
            r = r.otherwise(self.or_())
        self.need("end")
        return r

    def interval(self):
        from .functions import Interval
        self.i += 1
        neg = self.take("-")
        k, v = self.peek()
        self.i += 1
        v = v.strip("'\"")
        m = re.fullmatch(r"\s*(-?\d+)\s*(\w+?)?s?\s*", v)
        if not m:
            raise HarnessError(f"stub: interval {v!r}")
        unit = m[2]
        if unit is None:
            unit = self.peek()[1]
            self.i += 1
        unit = unit.lower().rstrip("s")
        if unit not in ("second", "minute", "hour", "day", "week", "month", "year", "quarter"):
            raise HarnessError(f"stub: interval unit {unit}")
        return Column(Node("lit", v=Interval(-int(m[1]) if neg else int(m[1]), unit), t="interval"))

    def call(self, w):
        from . import functions as F
        distinct = self.take("distinct")
        args = self.args()
        if self.peek("over"):
            raise HarnessError("stub: OVER in SQL text")
        if w == "if":
            return F.when(args[0], args[1]).otherwise(args[2])
        if distinct:
            if w == "count":
                return F.count_distinct(*args)
            if w == "sum":
                return F.sum_distinct(*args)
            raise HarnessError(f"stub: {w}(DISTINCT …)")
        w = {"ceiling": "ceil", "substr": "substring", "mean": "avg", "std": "stddev", "len": "length", "int": "cast_int"}.get(w, w)
        if w in ("int", "bigint", "double", "string", "boolean", "timestamp", "date"):
            return args[0].cast(w)

        def plain(a):
            return a._n.p["v"] if isinstance(a, Column) and a._n.op == "lit" and (isinstance(a._n.p["v"], bool) or isinstance(a._n.p["v"], int) and w in ("lag", "lead", "ntile", "nth_value")) else a
        f = getattr(F, w)
        return f(*[plain(a) for a in args])


def parse(s):
    return P(s).whole()
