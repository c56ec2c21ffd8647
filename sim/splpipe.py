"""SPL pipelines of known meaning: a typed generator and an executable reference of search, where, eval, fields,
table, rename, rex, fillnull, sort and head over small event tables. Oracle of C11, C12, C14 and C15.

Expressions are nested lists: ["f", name], ["n", number], ["s", text], [op, ...]. `types` maps a field to its
type: i (integer), n (number), s (string), t (time), l (list of strings). An event is a dict; an absent value is None.
"""
from decimal import Decimal, ROUND_HALF_UP
import datetime, hashlib, ipaddress, json, math, re


class Unclear(Exception):
    """SPL does not prescribe a result (overflow, division by zero, rounding at the limit of precision)."""


FIELDS = [("id", "bigint"), ("u", "bigint"), ("x", "bigint"), ("y", "bigint"), ("d", "double"), ("k", "string"), ("s", "string"), ("ip", "string")]
TYPES = dict(id="i", u="i", x="i", y="i", d="n", k="s", s="s", ip="s")
TFIELDS = FIELDS + [("_time", "timestamp"), ("j", "string"), ("sz", "string"), ("cm", "string"), ("_raw", "string")]
TTYPES = dict(TYPES, _time="t", j="s", sz="s", cm="s", _raw="r")  # r: the text of the event
SOLID = ("id", "u", "k", "_raw")  # fields every event has
WORDS = ["error", "Warn", "7401", "FAILED", "it's", "key=val", "50.5"]
KS = ["a", "ab", "abc", "b", "bc"]
SS = ["p", "q", "Pq", "a b", "xyz", "x-y-z", "abab", "p.q", "A1b2", " pad ", "10", "\u00e9t\u00e9", "a,b,c", "it's", 'a"b', "C:\\new\\t"]
JS = ['{"a":1,"b":{"c":"q"}}', '{"a":"z"}', "[1,2]", "{}", '{"b":{"c":2}}', "plain", '{"a":"it\'s"}', '{"a":null,"b":{"c":"x y"}}']
BASE = datetime.datetime(2024, 1, 1)
NOW = datetime.datetime(2024, 5, 17, 13, 45, 59)  # the simulated clock of the stand-in
TIMEFMTS = ["%Y-%m-%dT%H:%M:%S", "%d/%m/%y", "%H:%M:%S.%3Q", "%M.%f", "%Y/%j", "%B %d, %Y", "%A", "%a %b", "%I:%M %p", "%F at %T", "%Y%%", "%H o'clock", "%T.%6Q", "[%H]", "%m%d", "%%H"]
RELS = ["-1d@d", "+3h@h", "@mon", "@w0", "@w", "@d", "-30m@h", "@h-5m", "-1w@w+1d", "-90s@m", "h@h", "-2h@d+6h", "@s", "-7d@mon"]
SPANS = [("1h", 3600), ("15m", 900), ("1d", 86400), ("30s", 30), ("2h", 7200), ("10min", 600)]
IPS = ["10.0.0.1", "10.1.2.3", "192.168.1.77", "172.16.0.9", "8.8.8.8"]


def gen_rows(r, n=None):
    n = r.choice([0, 1, 2, 3, 5, 8, 13, 25]) if n is None else n
    nulls = r.choice([0, .2, .5])

    def opt(v):
        return None if r.random() < nulls else v
    return [[i + 1, r.randint(0, 12), opt(r.randint(-9, 9)), opt(r.randint(-9, 30)), opt(r.randint(-20, 40) / 4), r.choice(KS), opt(r.choice(SS)), opt(r.choice(IPS))]
            for i in range(n)]


def gen_trows(r, n=None):
    rows = gen_rows(r, n)
    nulls = r.choice([0, 0, .2])
    for row in rows:
        t = r.choice([r.randrange(86400 * 800), r.randrange(7200), 86400 * r.randrange(800), 3600 * r.randrange(50)]) * 1000 + r.choice([0, 0, r.randrange(1000)])
        row += [None if r.random() < nulls else t, None if r.random() < .2 else r.choice(JS), None if r.random() < nulls else r.choice(["10k", "3.5m", "2G", "7K", "0.25M"]), r.choice(["1,234.5", "12", "1,000,000", "0.5"])]
        row.append(" ".join(r.choice(WORDS) for _ in range(r.choice([0, 1, 2, 3, 5, 8]))))
    return rows


def load(rows, fields):
    """Rows as the cluster stores them: times are kept as milliseconds in a scenario."""
    at = [i for i, (_, t) in enumerate(fields) if t == "timestamp"]
    return [tuple(BASE + datetime.timedelta(milliseconds=v) if i in at and v is not None else v for i, v in enumerate(x)) for x in rows]


def events(rows, fields=FIELDS):
    return [dict(zip([f for f, _ in fields], x)) for x in load(rows, fields)]


NETS = ["10.0.0.0/8", "192.168.1.0/26", "0.0.0.0/0", "172.16.0.0/12", "10.1.2.3/32", "8.8.0.0/16"]


# ---------------------------------------------------------------- generator
def inval(r, v):
    """A value of an IN list of a search: text, a bare word, or a pattern."""
    c = r.random()
    return ["s", v] if c < .5 else ["w", v] if c < .75 else ["pat", v[:1] + "*" if c < .87 else "*" + v[-1:], r.random() < .5]


class Gen:
    def __init__(self, r, types=None, solid=SOLID, runtime=True, feats=()):
        self.r, self.types, self.solid, self.runtime, self.feats = r, dict(types or TYPES), set(solid), runtime, set(feats)

    def of(self, *ts):
        return [f for f, t in self.types.items() if t in ts]

    def num(self, d):
        r = self.r
        c = r.random()
        fs = self.of("i", "n")
        if d <= 0 or c < .22:
            return ["f", r.choice(fs)] if fs and r.random() < .7 else ["n", r.choice([0, 1, 2, 3, 7, 10, 100, .5, 2.25]) if r.random() < .9 else r.choice([30, 3000000000, 0.001, 12.0])]
        if c < .5:
            return [r.choice(["+", "-", "*", "+", "-", "/"]), self.num(d - 1), self.num(d - 1)]
        k = r.choice(["abs", "ceiling", "floor", "round", "round2", "sqrt", "pow", "len", "min", "max", "sum", "avg", "if", "case", "coalesce", "nullif", "bit_and", "bit_or",
                      "bit_xor", "bit_shift_left", "bit_shift_right", "tonumber", "exact", "hypot", "ln", "log", "exp", "trig", "trig", "trig", "mvcount", "pi", "null",
                      "bit_not", "arc", "ceil", "base", "random"])
        if k in ("abs", "sqrt", "exact", "ln", "exp"):
            return [k, self.num(d - 1)]
        if k in ("ceiling", "ceil", "floor", "round"):
            return [k, self.num(d - 1)]
        if k == "arc":
            fs = [f for f in self.of("i") if f in self.solid]
            o = r.choice(["acos", "asin", "acosh", "atanh"])
            return [o, ["/", ["f", r.choice(fs)], ["n", 100]] if o != "acosh" else ["+", ["f", r.choice(fs)], ["n", r.choice([1, 1.5])]]] if fs else self.num(d - 1)
        if k == "base" and self.runtime:
            return ["tonumber", ["s", r.choice(["ff", "1010", "777", "z"])], ["n", r.choice([16, 2, 8, 36])]]
        if k in ("base", "random"):
            # its value is free, its range is not
            return ["if", ["and", ["cmp", ">=", ["random"], ["n", 0]], ["cmp", "<", ["random"], ["n", 2147483648]]], self.num(d - 1), self.num(d - 1)]
        if k == "round2":
            return ["round", self.num(d - 1), ["n", r.choice([0, 1, 2])]]
        if k == "log":
            return ["log", self.num(d - 1)] + ([["n", r.choice([2, 10])]] if r.random() < .5 else [])
        if k == "trig":
            return [r.choice(["sin", "cos", "tan", "atan", "sinh", "cosh", "tanh", "asinh"]), self.num(d - 1)]
        if k == "hypot":
            return [r.choice(["hypot", "atan2"]), self.num(d - 1), self.num(d - 1)]
        if k == "pow":
            return ["pow", self.num(d - 1), ["n", r.choice([0, 1, 2, 3])]]
        if k == "len":
            return ["len", self.str(d - 1)]
        if k in ("min", "max"):
            return [k] + [self.num(d - 1) for _ in range(r.choice([2, 2, 3]))]
        if k in ("sum", "avg"):
            fs = [f for f in self.of("i", "n") if f in self.solid]
            if len(fs) < 2:
                return self.num(d - 1)
            return [k] + [["f", r.choice(fs)] for _ in range(r.choice([2, 3]))]
        if k == "if":
            return ["if", self.bool(d - 1), self.num(d - 1), self.num(d - 1)]
        if k == "case":
            a = [x for _ in range(r.randint(1, 3)) for x in (self.bool(d - 1), self.num(d - 1))]
            return ["case"] + a + ([["true"], self.num(d - 1)] if r.random() < .4 else [])
        if k == "coalesce":
            return ["coalesce"] + [self.num(d - 1) for _ in range(r.choice([2, 3]))]
        if k == "nullif":
            return ["nullif", self.num(d - 1), self.num(d - 1)]
        if k.startswith("bit_"):
            fs = [f for f in self.of("i") if f in self.solid]
            if not fs:
                return self.num(d - 1)
            return [k, ["f", r.choice(fs)]] + ([["n", r.choice([0, 1, 2, 3] if "shift" in k else [1, 3, 6, 12, 255])]] if k != "bit_not" else [])
        if k == "tonumber":
            fs = [f for f in self.of("i")]
            return ["tonumber", ["tostring", ["f", r.choice(fs)]]] if fs else self.num(d - 1)
        if k == "mvcount":
            return ["mvcount", ["split", self.str(d - 1), ["s", r.choice(["-", "a", ",", "\""])]]]
        if k == "pi":
            return ["pi"]
        return ["if", self.bool(d - 1), self.num(d - 1), ["null"]]

    def str(self, d):
        r = self.r
        c = r.random()
        if self.of("t") and d > 0 and r.random() < .2:
            return ["strftime", self.time(d - 1), ["fmt", r.choice(TIMEFMTS)]]
        if self.of("l") and d > 0 and r.random() < .15:
            return ["mvindex", ["f", r.choice(self.of("l"))], ["n", r.choice([0, 0, 1])]]
        fs = self.of("s")
        if d <= 0 or c < .3:
            return ["f", r.choice(fs)] if fs and r.random() < .75 else ["s", r.choice(["a", "p", "x y", "-", "none", "A1", "p.q", "it's", 'a"b', "C:\\new", "tab\\t", "100%", "", ""])]
        k = r.choice(["lower", "upper", "substr", "substr", "replace", "trim", "ltrim", "rtrim", "tostring", ".", ".", ".", "if", "case", "coalesce", "nullif", "validate", "md5", "sha1", "sha256", "sha512",
                      "mvindex", "urldecode", "ipmask", "printf"])
        if k in ("lower", "upper", "md5", "sha1", "sha256", "sha512", "urldecode"):
            return [k, self.str(d - 1)]
        if k in ("trim", "ltrim", "rtrim"):
            return [k, self.str(d - 1), ["s", r.choice(["a", "p", "ab", "x", " "])]]
        if k == "substr":
            return [k, self.str(d - 1), ["n", r.choice([1, 1, 2, 3])], ["n", r.choice([1, 2, 3, 8])]] if not self.runtime or r.random() < .8 else [k, self.str(d - 1), ["n", r.choice([1, 2, 3])]]
        if k == "replace":
            if r.random() < .4:
                rx, rp = r.choice([("(.)(.)", r"\2\1"), ("([a-z])([^a-z])", r"\2_\1"), ("(x|p)(.?)(.?)", r"\3\2"), ("([a-z])([0-9]*)", r"\2\1"), ("^(.)(.*)$", r"\2-\1"), ("(a)|b", r"<\1>"), ("(p)?[.]", r"$\1"), ("a", "$"), ("x|a", "$1"), ("[.]", r"\""), ("(.)$", r"\\1\\1")])
                return [k, self.str(d - 1), ["rx", rx], ["rx", rp]]
            return [k, self.str(d - 1), ["rx", r.choice(["a", "p", "[ab]+", "^x", "z$", "[0-9]", r"\bx", r"\d+", r"\s", r"\w$", "'", r'[\"x]', r"[\\\\a]", r'\"b$'])], ["s", r.choice(["Z", "", "qq", "it's"])]]
        if k == "tostring":
            fs = self.of("i")
            gs = [f for f in self.of("i") if f in self.solid]
            if self.runtime and fs and r.random() < .2:
                return ["commas", ["/", r.choice([["f", r.choice(fs)], ["*", ["f", r.choice(fs)], ["n", 98765]]]), ["n", r.choice([2, 4, 5, 10, 1000])]], ["s", "commas"]]
            if r.random() < .15:
                return [k, self.str(d - 1)]
            if self.runtime and gs and r.random() < .5:
                return [k, ["f", r.choice(gs)], ["s", r.choice(["hex", "commas", "duration", "binary"])]]
            return [k, ["f", r.choice(fs)]] if fs else self.str(d - 1)
        if k == ".":
            return [k, self.str(d - 1), self.str(d - 1)]
        if k == "if":
            return ["if", self.bool(d - 1), self.str(d - 1), self.str(d - 1)]
        if k == "case":
            return ["case"] + [x for _ in range(r.randint(1, 3)) for x in (self.bool(d - 1), self.str(d - 1))]
        if k == "coalesce":
            return ["coalesce"] + [self.str(d - 1) for _ in range(r.choice([2, 3]))]
        if k == "nullif":
            return ["nullif", self.str(d - 1), self.str(d - 1)]
        if k == "validate":
            fs = [f for f in self.of("i") if f in self.solid]
            if not fs:
                return self.str(d - 1)
            return ["validate"] + [x for i in range(r.randint(1, 2)) for x in (["cmp", r.choice([">", "<", ">=", "<="]), ["f", r.choice(fs)], ["n", r.randint(0, 9)]], ["s", f"bad{i}"])]
        if k == "mvindex":
            return ["mvindex", ["split", self.str(d - 1), ["s", r.choice(["-", "b", ","])]], ["n", r.choice([0, 0, 1])]]
        if k == "ipmask" and self.runtime and "ip" in self.types:
            return ["ipmask", ["s", r.choice(["255.255.0.0", "255.0.0.0", "255.255.255.240"])], ["f", "ip"]]
        if k == "printf" and self.runtime:
            fs = [f for f in self.of("i") if f in self.solid]
            gs = [f for f in self.of("s") if f in self.solid]
            if fs and gs:
                return ["printf", ["s", r.choice(["%s-%d", "%s=%5d|", "%-6s%03d", "<%s %x>"])], ["f", r.choice(gs)], ["f", r.choice(fs)]]
        return self.str(d - 1)

    def time(self, d):
        r = self.r
        c = r.random()
        if d <= 0 or c < .4:
            return ["f", r.choice(self.of("t"))] if c < .34 else [r.choice(["now", "time"])]
        if c < .8:
            return ["reltime", self.time(d - 1), ["rel", r.choice(RELS)]]
        if c < .9:
            f = r.choice(["%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S", "%d/%m/%Y at %H.%M", "%Y%%%m-%d"])
            return ["strptime", ["strftime", self.time(d - 1), ["fmt", f]], ["fmt", f]]
        return ["if", self.bool(d - 1), self.time(d - 1), self.time(d - 1)]

    def list(self, d):
        r = self.r
        c = r.random()
        if c < .25 and self.of("l"):
            return ["f", r.choice(self.of("l"))]
        if d <= 0 or c < .6:
            return ["split", self.str(d - 1), ["s", r.choice(["-", ".", "b", ",", " ", "+", "'", "\"", "\\"])]]
        if c < .75:
            return ["mvappend", self.list(d - 1), self.list(d - 1)]
        if c < .9:
            return ["mvzip", self.list(d - 1), self.list(d - 1)] + ([["s", r.choice(["|", "it's", "\"", "\\", "a\"b"])]] if r.random() < .5 else [])
        return ["mvrange", self.list(d - 1), ["n", r.choice([0, 1])], ["n", r.choice([1, 2])]]

    def bool(self, d):
        r = self.r
        c = r.random()
        if self.of("t") and d > 0 and r.random() < .12:
            return ["cmp", r.choice(["=", "!=", "<", ">", "<=", ">="]), self.time(d - 1), self.time(d - 1)]
        if d > 0 and c < .3:
            return [r.choice(["and", "or"]), self.bool(d - 1), self.bool(d - 1)]
        if d > 0 and c < .38:
            b = self.bool(d - 1)
            return b if contains(b, ("cidrmatch",)) else ["not", b]
        if c < .46:
            return [r.choice(["isnull", "isnotnull"]), ["f", r.choice(list(self.types))]]
        if c < .54:
            return ["match", self.str(d - 1), ["rx", r.choice(["^a", "b$", "[0-9]", "p.q", "^[a-c]+$", "^x-", "\u00e9", r"\bq", r"^\w+$", r"\d", "t's", r"p\.q"])]]
        if c < .56:
            return ["json_valid", ["f", "j"]] if self.types.get("j") == "s" else ["false"] if r.random() < .3 else ["true"]
        if c < .6 and self.runtime and "ip" in self.types:
            return ["cidrmatch", ["s", r.choice(["10.0.0.0/8", "192.168.1.0/26", "0.0.0.0/0", "172.16.0.0/12"])], ["f", "ip"]]
        if c < .8:
            return ["cmp", r.choice(["=", "!=", "<", ">", "<=", ">=", "=="]), self.num(d - 1), self.num(d - 1)]
        return ["cmp", r.choice(["=", "!=", "=", "<", ">"]), self.str(d - 1), self.str(d - 1)]

    # conditions of `where`: its grammar compares a field with a constant
    def wcond(self, d, level="or"):
        r = self.r
        c = r.random()
        if d > 0 and c < .45:
            return [r.choice(["and", "or"]), self.wcond(d - 1), self.wcond(d - 1)]
        if d > 0 and c < .55:
            return ["not", self.wcond(d - 1)]
        if c < .65:
            return [r.choice(["isnull", "isnotnull"]), ["f", r.choice(list(self.types))]]
        if c < .72 and self.of("s"):
            return ["match", ["f", r.choice(self.of("s"))], ["rx", r.choice(["^a", "b$", "[0-9]", "p.q", "^[a-c]+$", r"\bb\b", r"\s"])]]
        if c < .8 and self.of("s"):
            return ["in", ["f", r.choice(self.of("s"))], [["s", v] for v in r.sample(KS + ["p", "q", "xyz"], r.randint(1, 3))]]
        if c < .85 and self.of("i", "n"):
            return ["in", ["f", r.choice(self.of("i", "n"))], [["n", v] for v in r.sample([*range(12), *range(12), -2, -3, 2.5, -1.25], r.randint(1, 4))]]
        if (c < .93 or not self.of("s")) and self.of("i", "n"):
            return ["cmp", r.choice(["=", "!=", "<", ">", "<=", ">="]), ["f", r.choice(self.of("i", "n"))], ["n", r.choice([-2, 0, 1, 3, 5, 8, 2.5, -1.25]) if r.random() < .9 else r.choice([1000, 86400, 5000000000, 0.001])]]
        if self.of("s"):
            return ["cmp", r.choice(["=", "!=", "<", ">", "<=", ">="]), ["f", r.choice(self.of("s"))], ["s", r.choice(KS + ["p", "xyz", "A1b2", "a b", "it's", 'a"b', "", ""])]]
        return ["isnotnull", ["f", r.choice(list(self.types))]]

    # terms of `search`: values compare without regard to case, so only values without case variants are used
    def sterm(self, d):
        r = self.r
        c = r.random()
        if d > 0 and c < .3:
            return [r.choice(["and", "or", "and"]), self.sterm(d - 1), self.sterm(d - 1)]
        if self.types.get("_raw") == "r" and r.random() < .12:
            # free text: words, or several of them in quotes, whatever their case
            c = r.random()
            w = r.choice(WORDS) if c < .6 else r.choice(WORDS) + " " + r.choice(WORDS)
            t = ["text", r.choice([w, w, w.lower(), w.upper()]), "" if w.isalpha() and r.random() < .6 else '"']
            return ["not", t] if r.random() < .2 else t
        ks = [f for f in self.of("s") if f == "k" or f in self.feats]
        if d > 0 and c < .38:
            fs = [f for f in self.of("i") if f in self.solid]
            if fs:
                return ["not", ["cmp", r.choice(["=", "<", ">"]), ["f", r.choice(fs)], ["n", r.randint(0, 12)]]]
        if c < .48 and ks:
            return ["in", ["f", r.choice(ks)], [inval(r, v) for v in r.sample(KS, r.randint(1, 3))]]
        if c < .5 and self.runtime and self.types.get("ip") == "s" and "ip" not in self.solid:
            net = r.choice(NETS)
            if r.random() < .6:
                return ["cidr", ["f", "ip"], r.choice(["=", "!=", "=", "=="]), net]
            return ["in", ["f", "ip"], r.sample([["net", net], ["net", r.choice(NETS)], ["s", r.choice(IPS)]], r.randint(1, 3))]
        if c < .55 and self.of("i", "n"):
            return ["in", ["f", r.choice(self.of("i", "n"))], [["n", v] for v in r.sample([*range(12), *range(12), -2, -3, 2.5, -1.25], r.randint(1, 4))]]
        if c < .7 and ks:
            return ["cmp", r.choice(["=", "=", "!="]), ["f", r.choice(ks)], ["s" if r.random() < .5 else "w", r.choice(KS)]]
        if c < .77 and ks:
            return ["glob", ["f", r.choice(ks)], r.choice(["a*", "*b", "*b*", "ab*", "*c"])]
        if c < .83 and self.types.get("s") == "s" and "s" not in self.solid:
            if r.random() < .6:
                return ["cmp", r.choice(["=", "!="]), ["f", "s"], ["s", r.choice(["it's", 'a"b', "C:\\new\\t", "x-y-z", "a b", "p.q", "a,b,c"])]]
            return ["glob", ["f", "s"], r.choice(["x*z", "*y*z", "a*b*", "it's*", "* b", "a,*", "p.*", '*"b', "x-*-z"])]
        if self.of("i", "n"):
            return ["cmp", r.choice(["=", "!=", "<", ">", "<=", ">="]), ["f", r.choice(self.of("i", "n"))], ["n", r.choice([-2, 0, 1, 3, 5, 8, 2.5])]]
        return ["cmp", "=", ["f", "k"], ["s", "a"]] if "k" in self.types else ["and", ["true"], ["true"]]

    def stage(self, kinds):
        r = self.r
        k = r.choice(kinds)
        names = list(self.types)
        if k == "search":
            if r.random() < .15:
                # a search of many terms
                t = self.sterm(1)
                for _ in range(r.randint(3, 6)):
                    u = self.sterm(0)
                    t = ["and", t, u if r.random() < .7 else ["or", u, self.sterm(0)]]
                return ["search", t]
            return ["search", self.sterm(2)]
        if k == "where":
            return ["where", self.wcond(2)]
        if k == "eval":
            out = []
            for _ in range(r.choice([1, 1, 2, 3, 4])):
                n = r.choice(["a", "b", "c", "a2", "x", "s", "u", "result", "class", "d", "new col"])
                if self.of("t") and r.random() < .2:
                    n = r.choice(["_time", "t2", "a"])
                    e, t = self.time(2), "t"
                elif self.of("t", "l") and r.random() < .12:
                    e, t = self.list(2), "l"
                elif r.random() < .6:
                    e, t = self.num(3), "n"
                    t = typ(e, self.types)
                else:
                    e, t = self.str(3), "s"
                out.append([n, e])
                self.types[n] = t
                self.solid.discard(n)
            return ["eval", out]
        if k == "fields":
            c = r.random()
            if c < .4 and len(names) > 3:
                drop = r.sample([n for n in names if n != "id"], r.randint(1, 2))
                for n in drop:
                    self.types.pop(n)
                return ["fields", "-", drop]
            keep = [n for n in names if n == "id" or r.random() < .7]
            r.shuffle(keep)
            self.types = {n: self.types[n] for n in keep}
            return ["fields", r.choice(["", "+"]), keep]
        if k == "table":
            keep = [n for n in names if n == "id" or r.random() < .7]
            r.shuffle(keep)
            self.types = {n: self.types[n] for n in keep}
            return ["table", keep, r.choice([" ", ", "])]
        if k == "rename":
            fs = r.sample([n for n in names if n != "id"] or names, 1 if len(names) < 4 or r.random() < .6 else 2)
            new = r.sample([n for n in ["r1", "r2", "r3", "new name", "user_id", "Client IP"] if n not in self.types], len(fs))
            for a, b in zip(fs, new):
                self.types = {b if n == a else n: v for n, v in self.types.items()}
                if a in self.solid:
                    self.solid.add(b)
                self.solid.discard(a)
                new[fs.index(a)] = b
            pairs = [list(p) for p in zip(fs, new)]
            if r.random() < .25:
                # the pairs apply in order: a name given by one may be renamed by the next
                a, b = pairs[-1]
                c = r.choice([n for n in ["r4", "r5", "third name"] + [a] if n not in self.types])
                self.types = {c if n == b else n: v for n, v in self.types.items()}
                if b in self.solid:
                    self.solid.add(c)
                self.solid.discard(b)
                pairs.append([b, c])
            return ["rename", pairs]
        if k == "rex":
            fs = self.of("s")
            if not fs:
                return None
            f = r.choice(fs)
            own = f if f.isidentifier() and f not in ("hd", "rest") else "g1"
            rx, groups = r.choice([("^(?<g1>.)?(?<g2>.*)$", ["g1", "g2"]), ("(?<g3>[a-z]*)$", ["g3"]), ("^(?<g1>[a-z]*)", ["g1"]), ("^(?<hd>.?)(?<tl>.*)$", ["hd", "tl"]), ("^(?<_h>.?)", ["_h"]), (r'^(?<g1>[^\"]*)\"?(?<g2>.*)$', ["g1", "g2"]), (r"^(\w|\W)?(?<g2>.*)$", ["g2"]), (r"^(?<g1>.?)([a-z]*)(?<g2>.*)$", ["g1", "g2"]), (r"^((?<g1>[a-c]*)|(.))(?<tl>.*)$", ["g1", "tl"]), (r"^(?<g1>(?:[a-z]{1,2})*)(?<g2>[^a-z\d]?)", ["g1", "g2"]), (r"(?<g1>a|b|[x-z]+|$)", ["g1"]), ("^(?P<g1>.?)(?<tl_2>.*)$", ["g1", "tl_2"]), ("^(?<a_b>.?(?<c_d>.?))(?:.*?)(?P<e_f>.?)$", ["a_b", "c_d", "e_f"]), (f"^(?<{own}>.?)(?<rest>.*)$", [own, "rest"]), (f"^(?<hd>.?)(?<{own}>.*)$", ["hd", own])])
            for g in groups:
                self.types[g] = "s"
                self.solid.discard(g)
            return ["rex", f, rx, groups]
        if k == "bin":
            if not self.of("t"):
                return None
            f, a = r.choice(self.of("t")), r.choice([None, "slot", "a", "time slot"])
            self.types[a or f] = "t"
            self.solid.discard(a)
            return ["bin", *r.choice(SPANS), f, a]
        if k == "addtotals":
            fs = self.of("i", "n")
            if not fs:
                return None
            fs, a = r.sample(fs, min(len(fs), r.randint(1, 3))), r.choice([None, "tot", "grand total"])
            self.types[a or "Total"] = "n"
            self.solid.discard(a or "Total")
            return ["addtotals", fs, a]
        if k == "convert":
            out = []
            for _ in range(r.choice([1, 1, 1, 2])):
                fn = r.choice(["ctime", "ctime", "ctime", "memk", "rmunit", "rmcomma"])
                fs = self.of("t") if fn == "ctime" else [f for f in [{"rmcomma": "cm"}.get(fn, "sz")] if self.types.get(f) == "s"]
                if fs:
                    f, a = r.choice(fs), r.choice([None, "ym", "a", "as text"])
                    self.types[a or f] = "s" if fn == "ctime" else "n"
                    self.solid.discard(a)
                    out.append([fn, f, a])
            return ["convert", r.choice([None, None] + TIMEFMTS), out] if out else None
        if k == "spath":
            if self.types.get("j") != "s":
                return None
            p, a = r.choice([("a", None), ("a", "q"), ("b.c", "q"), ("b", "q2"), ("a", "j")])
            self.types[a or p] = "s"
            self.solid.discard(a or p)
            return ["spath", "j", p, a]
        if k == "fillnull":
            c = r.random()
            if c < .25:
                return ["fillnull", None, None]
            if c < .4:
                return ["fillnull", r.choice([0, 7]), None]
            if c < .75:
                fs = self.of("i", "n") + self.of("s")
                pick = r.sample(fs, min(len(fs), r.randint(1, 3)))
                return ["fillnull", r.choice([0, 1, 9]), pick]
            fs = self.of("s")
            if not fs:
                return None
            return ["fillnull", r.choice(["none", "n/a", "NULL", 'say "no"', "C:\\none", "it's", "0"]), r.sample(fs, min(len(fs), r.randint(1, 2)))]
        raise KeyError(k)


def typ(e, types):
    """i when the value is an integer of the same kind in every engine, n for other numbers, s for strings."""
    o = e[0]
    if o == "f":
        return types[e[1]]
    if o == "n":
        return "i" if isinstance(e[1], int) else "n"
    if o in ("+", "-", "*"):
        return "i" if typ(e[1], types) == typ(e[2], types) == "i" else "n"
    if o in ("len",):
        return "i"
    if o in ("reltime", "strptime", "now", "time"):
        return "t"
    if o in ("split", "mvappend", "mvzip", "mvrange"):
        return "l"
    if o in ("s", ".", "lower", "upper", "substr", "replace", "trim", "ltrim", "rtrim", "tostring", "commas", "md5", "sha1", "sha256", "sha512", "validate", "mvindex", "urldecode", "ipmask", "printf", "strftime"):
        return "s"
    if o == "if":
        return typ(e[2], types) if e[3] == ["null"] or typ(e[2], types) in "tl" else "s" if typ(e[2], types) == "s" else "i" if typ(e[2], types) == typ(e[3], types) == "i" else "n"
    if o in ("coalesce", "nullif", "case"):
        a = e[2::2] if o == "case" else e[1:]
        return "s" if typ(a[0], types) == "s" else "i" if o != "nullif" and all(typ(x, types) == "i" for x in a) else "n"
    return "n"


# ---------------------------------------------------------------- text
PREC = {"+": 3, "-": 3, "*": 4, "/": 4}


def qn(n, q='"'):
    """A field name as SPL text: quoted when it is no plain word."""
    return n if n.isidentifier() else q + n + q


def etext(e, left=0):
    o = e[0]
    if o == "f":
        return qn(e[1], "'")
    if o == "n":
        return repr(e[1])
    if o == "s":
        return '"' + e[1].replace("\\", "\\\\").replace('"', '\\"') + '"'
    if o in ("rx", "fmt", "rel"):
        return '"' + e[1] + '"'
    if o in ("w", "net"):
        return e[1]
    if o == "pat":
        return f'"{e[1]}"' if e[2] else e[1]
    if o == "text":
        return e[2] + e[1] + e[2]
    if o == "cidr":
        return etext(e[1]) + e[2] + e[3]
    if o in PREC:
        # chains apply from left to right and products before sums: parentheses only where they are needed
        a, b = etext(e[1]), etext(e[2])
        if e[1][0] in PREC and PREC[e[1][0]] < PREC[o] or e[1][0] in (".", "cmp"):
            a = f"({a})"
        if e[2][0] in PREC and (PREC[e[2][0]] <= PREC[o]) or e[2][0] in (".", "cmp"):
            b = f"({b})"
        return f"{a} {o} {b}"
    if o == ".":
        return " . ".join(f"({etext(x)})" if x[0] in PREC or x[0] == "." else etext(x) for x in e[1:])
    if o == "cmp":
        return " ".join([f"({etext(x)})" if x[0] in (".",) else etext(x) for x in e[2:3]] + [e[1]] + [f"({etext(x)})" if x[0] in (".",) else etext(x) for x in e[3:]])
    if o in ("and", "or"):
        return f" {o.upper()} ".join(f"({etext(x)})" if x[0] in ("and", "or", "not", "cmp") else etext(x) for x in e[1:])
    if o == "not":
        return f"NOT ({etext(e[1])})"
    if o == "in":
        return f"{etext(e[1])} IN ({', '.join(etext(v) for v in e[2])})"
    if o == "glob":
        return f"{etext(e[1])}={etext(['s', e[2]])}" if len(e[2]) > 2 else f"{etext(e[1])}={e[2]}"
    if o in ("true", "false", "null", "pi", "now", "time", "random"):
        return o + "()"
    o = dict(reltime="relative_time", mvrange="mvindex", commas="tostring").get(o, o)
    return f"{o}({', '.join(etext(x) for x in e[1:])})"


def stext(e):
    """A search term: no spaces around comparison operators, AND may be left out."""
    o = e[0]
    if o == "cmp":
        left = qn(e[2][1], "'\""[len(repr(e)) % 2]) if e[2][0] == "f" else etext(e[2])
        return f"{left}{e[1]}{etext(e[3])}"
    if o in ("and", "or"):
        j = " " if o == "and" and (len(repr(e)) % 2) else f" {o.upper()} "
        return j.join(f"({stext(x)})" if x[0] in ("and", "or", "not") else stext(x) for x in e[1:])
    if o == "not":
        return f"NOT {stext(e[1])}"
    return etext(e)


def wtext(e):
    o = e[0]
    if o == "cmp":
        return f"{etext(e[2])} {e[1]} {etext(e[3])}"
    if o in ("and", "or"):
        return f" {o.upper()} ".join(f"({wtext(x)})" if x[0] in ("and", "or", "not") else wtext(x) for x in e[1:])
    if o == "not":
        return f"NOT ({wtext(e[1])})"
    return etext(e)


def text(st):
    k = st[0]
    if k == "search":
        return "search " + stext(st[1])
    if k == "where":
        return "where " + wtext(st[1])
    if k == "eval":
        return "eval " + ", ".join(f"""{qn(n, "'" if len(repr(e)) % 3 else '"')}={etext(e)}""" for n, e in st[1])
    if k == "fields":
        return f"fields {st[1] + ' ' if st[1] else ''}" + ", ".join(qn(n) for n in st[2])
    if k == "table":
        return "table " + st[2].join(qn(n) for n in st[1])
    if k == "rename":
        return "rename " + ", ".join(f"{qn(a)} AS {qn(b)}" for a, b in st[1])
    if k == "rex":
        return f'rex field={qn(st[1])} "{st[2]}"'
    if k == "fillnull":
        v = "" if st[1] is None else f" value={st[1]}" if not isinstance(st[1], str) or st[1].isalnum() else f" value={etext(['s', st[1]])}"
        return "fillnull" + v + ("" if not st[2] else " " + " ".join(qn(n) for n in st[2]))
    if k == "bin":
        return f"bin span={st[1]} {qn(st[3])}" + (f" AS {qn(st[4])}" if st[4] else "")
    if k == "addtotals":
        return "addtotals " + (f"fieldname={qn(st[2])} " if st[2] else "") + " ".join(qn(n) for n in st[1])
    if k == "convert":
        return "convert " + (f'timeformat="{st[1]}" ' if st[1] else "") + " ".join(f"{fn}({qn(f)})" + (f" AS {qn(a)}" if a else "") for fn, f, a in st[2])
    if k == "spath":
        return f"spath input={qn(st[1])}" + (f" output={qn(st[3])}" if st[3] else "") + f" path={st[2]}"
    if k == "sort":
        return "sort " + ("" if st[1] is None else f"{st[4] if len(st) > 4 else ''}{st[1]} ") + ", ".join(s + qn(f, "'") for s, f in st[2]) + (" desc" if len(st) > 3 and st[3] else "")
    if k == "head":
        form = st[2] if len(st) > 2 and st[2] else "{}"
        return "head " + (form.replace("{}", str(st[1])) if "{}" in form else f"{form}{st[1]}") + (f" keeplast={st[3]}" if len(st) > 3 and st[3] else "")
    raise KeyError(k)


# ---------------------------------------------------------------- reference
def chk(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, list, datetime.datetime)):
        return v
    if isinstance(v, float) and (math.isnan(v) or math.isinf(v)) or abs(v) > 2**50:
        raise Unclear("number too large")
    return v


def replacement(m, text):
    """SPL's replacement text: \\1 (also written \\\\1) is a group, everything else itself."""
    return re.sub(r'\\{1,2}(\d)|\\"', lambda g: '"' if g[1] is None else m[int(g[1])] or "", text)


def halfup(v, k):
    if isinstance(v, int):
        return v
    q = Decimal(repr(v)) * (Decimal(10) ** k)
    if abs(q) > 10**12:
        raise Unclear("too large to round")
    frac = abs(q) % 1
    if q != 0 and abs(frac - Decimal("0.5")) < Decimal("1e-6") and frac != Decimal("0.5"):
        raise Unclear("rounding at the limit of precision")
    return float(Decimal(repr(v)).quantize(Decimal(1).scaleb(-k), rounding=ROUND_HALF_UP))


UNITS = dict(s=1, m=60, h=3600, d=86400, w=604800)


def reltime(t, spec):
    """SPL's relative_time: an offset, a snap to the start of a unit (weeks start on Sunday), another offset."""
    off, _, rest = spec.partition("@")
    m = re.fullmatch(r"(mon|w0|[smhdw])(.*)", rest)

    def add(t, o):
        if not o:
            return t
        m = re.fullmatch(r"([+-]?\d*)([smhdw])", o)
        n = m[1] + "1" if m[1] in ("", "+", "-") else m[1]
        return t + datetime.timedelta(seconds=int(n) * UNITS[m[2]])
    t = add(t, off)
    u = m[1]
    keep = ["mon", "w", "d", "h", "m", "s"].index(u.rstrip("0"))
    t = t.replace(microsecond=0)
    if keep < 5:
        t = t.replace(second=0)
    if keep < 4:
        t = t.replace(minute=0)
    if keep < 3:
        t = t.replace(hour=0)
    if keep == 1:
        t -= datetime.timedelta(days=(t.weekday() + 1) % 7)
    if keep == 0:
        t = t.replace(day=1)
    return add(t, m[2])


def strftime(t, fmt):
    out, i = "", 0
    while i < len(fmt):
        m = re.match(r"%(3Q|6Q|.)", fmt[i:])
        if not m:
            out, i = out + fmt[i], i + 1
            continue
        i += len(m[0])
        v = m[1]
        out += ("%" if v == "%" else f"{t.microsecond // 1000:03d}" if v == "3Q" else f"{t.microsecond:06d}" if v == "6Q" else t.strftime("%" + v))
    return out


def conv(fn, v):
    """memk: kilobytes of a size with its unit; rmunit: the number before the unit; rmcomma: the number without commas."""
    if fn == "rmcomma":
        return float(v.replace(",", ""))
    m = re.fullmatch(r"(\d*\.?\d+)([kmg])", v.lower())
    if not m:
        raise Unclear("no size")
    return float(m[1]) * (1 if fn == "rmunit" else {"k": 1, "m": 1024, "g": 1048576}[m[2]])


def jsonpath(v, path):
    try:
        v = json.loads(v)
    except ValueError:
        return None
    for k in path.split("."):
        v = v.get(k) if isinstance(v, dict) else None
    return v if v is None or isinstance(v, str) else json.dumps(v, separators=(",", ":"))


def pyre(p):
    p = p.replace("\\\\", "\\").replace('\\"', '"')  # as in a quoted SPL string
    return re.compile(re.sub(r"\(\?<(?=[A-Za-z_])", "(?P<", p))


def globbed(v, p):
    return re.fullmatch(re.escape(p).replace(r"\*", ".*"), v) is not None


def innet(v, net):
    try:
        return ipaddress.ip_address(v) in ipaddress.ip_network(net)
    except ValueError:
        raise Unclear("no address")


def ev(e, row):
    return chk(_ev(e, row))


def _ev(e, row):
    o = e[0]
    if o == "f":
        return row[e[1]]
    if o in ("n", "s", "w", "rx", "fmt", "rel"):
        return e[1]
    if o == "null":
        return None
    if o in ("true", "false"):
        return o == "true"
    if o in ("now", "time"):
        return NOW
    if o == "random":
        return 12345
    if o == "pi":
        return math.pi
    if o in ("and", "or"):
        vs = [ev(x, row) for x in e[1:]]
        if o == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if o == "not":
        v = ev(e[1], row)
        return None if v is None else not v
    if o == "if":
        return ev(e[2], row) if ev(e[1], row) is True else ev(e[3], row)
    if o == "case":
        for c, v in zip(e[1::2], e[2::2]):
            if ev(c, row) is True:
                return ev(v, row)
        return None
    if o == "validate":
        for c, v in zip(e[1::2], e[2::2]):
            if ev(c, row) is False:
                return ev(v, row)
        return None
    if o == "coalesce":
        for x in e[1:]:
            v = ev(x, row)
            if v is not None:
                return v
        return None
    if o == "in":
        v = ev(e[1], row)
        return None if v is None else any(innet(v, x[1]) if x[0] == "net" else globbed(v, x[1]) if x[0] == "pat" else v == x[1] for x in e[2])
    if o == "text":
        # only whole words are searched for, and none of them is part of another
        return f" {e[1].lower()} " in f" {row['_raw'].lower()} "
    if o == "cidr":
        v = ev(e[1], row)
        return None if v is None else innet(v, e[3]) != (e[2] == "!=")
    if o == "glob":
        v = ev(e[1], row)
        return None if v is None else globbed(v, e[2])
    if o in ("isnull", "isnotnull"):
        return (ev(e[1], row) is None) == (o == "isnull")
    if o == "cmp":
        a, b = ev(e[2], row), ev(e[3], row)
        if a is None or b is None:
            return None
        if isinstance(a, str) != isinstance(b, str):
            raise Unclear("text against number")
        if isinstance(a, (int, float)) and a != b and abs(a - b) < 1e-9 * max(1, abs(a)):
            raise Unclear("equality at the limit of precision")
        return {"=": a == b, "==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[e[1]]
    a = [ev(x, row) for x in e[1:]]
    if o in ("min", "max"):
        vs = [v for v in a if v is not None]
        return (min if o == "min" else max)(vs) if vs else None
    if o == "nullif":
        if a[0] is None or a[1] is None:
            return a[0]
        if not isinstance(a[0], str) and a[0] != a[1] and abs(a[0] - a[1]) < 1e-9 * max(1, abs(a[0])):
            raise Unclear("equality at the limit of precision")
        return None if a[0] == a[1] else a[0]
    if None in a:
        if o == "mvappend":
            raise Unclear("absent list")
        if o == "json_valid":
            return False
        if o in ("hypot",) and a.count(None) < 2:
            raise Unclear("hypot of an absent value")
        return None
    x = a[0]
    y = a[1] if len(a) > 1 else None
    if o == "strftime":
        return strftime(x, y)
    if o == "strptime":
        return datetime.datetime.strptime(x, y)
    if o == "reltime":
        return reltime(x, y)
    if o == "mvappend":
        return x + y
    if o == "mvzip":
        if len(x) != len(y):
            raise Unclear("lists of different length")
        return [p + (a[2] if len(a) > 2 else ",") + q for p, q in zip(x, y)]
    if o == "json_valid":
        try:
            json.loads(x)
        except ValueError:
            return False
        return True
    if o == "mvrange":
        if y >= len(x) or a[2] < y:
            raise Unclear("no such values")
        return x[y:a[2] + 1]
    if o == "+":
        return x + y
    if o == "-":
        return x - y
    if o == "*":
        return x * y
    if o == "/":
        if y == 0:
            raise Unclear("division by zero")
        return x / y
    if o == ".":
        return x + y
    if o in ("ceiling", "ceil", "floor"):
        if isinstance(x, float) and x != round(x) and abs(x - round(x)) < 1e-9:
            raise Unclear("rounding at the limit of precision")
        return math.floor(x) if o == "floor" else math.ceil(x)
    if o == "round":
        return halfup(x, y or 0)
    if o in ("abs", "exact"):
        return abs(x) if o == "abs" else x
    if o == "sqrt":
        if x < 0:
            raise Unclear("root of a negative number")
        return math.sqrt(x)
    if o in ("ln", "log"):
        if x <= 0:
            raise Unclear("logarithm of a number below 1")
        return math.log(x) if o == "ln" else math.log(x) / math.log(y or 10)
    if o == "exp":
        if x > 30:
            raise Unclear("too large")
        return math.exp(x)
    if o in ("sin", "cos", "tan", "atan", "sinh", "cosh", "tanh", "asinh"):
        if abs(x) > (1000 if o not in ("sinh", "cosh") else 30):
            raise Unclear("precision")
        v = getattr(math, o)(x)
        if o == "tan" and abs(v) > 1e4:
            raise Unclear("precision")
        return v
    if o in ("acos", "asin", "acosh", "atanh"):
        if not (abs(x) <= 1 if o in ("acos", "asin") else x >= 1 if o == "acosh" else abs(x) < .999):
            raise Unclear("outside of the function's domain")
        return getattr(math, o)(x)
    if o in ("hypot", "atan2"):
        if o == "atan2" and (x == 0 or y == 0):
            raise Unclear("sign of zero")
        return getattr(math, o)(x, y)
    if o == "pow":
        if x == 0 and y == 0:
            return 1.0
        return float(x) ** y
    if o == "len":
        return len(x)
    if o == "sum":
        return sum(a)
    if o == "avg":
        return sum(a) / len(a)
    if o == "bit_and":
        return x & y
    if o == "bit_or":
        return x | y
    if o == "bit_not":
        return ~x
    if o == "bit_xor":
        return x ^ y
    if o == "bit_shift_left":
        return x << y
    if o == "bit_shift_right":
        return x >> y
    if o == "tonumber" and y is not None:
        try:
            return float(int(x, y))
        except ValueError:
            raise Unclear("no number of that base")
    if o == "tonumber":
        return float(x)
    if o == "tostring" and y is not None:
        if not isinstance(x, int) or x < 0:
            raise Unclear("format of a fraction or a negative number")
        return {"hex": f"0x{x:X}", "commas": f"{x:,}", "duration": f"{x // 3600:02d}:{x // 60 % 60:02d}:{x % 60:02d}", "binary": f"{x:b}"}[y]
    if o == "commas":
        if abs(abs(x) * 100 % 1 - .5) < 1e-6 or abs(x) > 1e12:
            raise Unclear("rounding at the limit of precision")
        return f"{float(x):,.2f}"
    if o == "tostring":
        if not isinstance(x, (int, str)):
            raise Unclear("text of a fraction")
        return str(x)
    if o in ("lower", "upper"):
        return getattr(x, o)()
    if o == "substr":
        n = a[2] if len(a) > 2 else len(x)
        return x[y - 1:y - 1 + n]
    if o == "replace":
        return pyre(y).sub(lambda m: replacement(m, a[2]), x)
    if o in ("trim", "ltrim", "rtrim"):
        c = y if y is not None else " "
        if o != "rtrim":
            x = x.lstrip(c)
        return x.rstrip(c) if o != "ltrim" else x
    if o in ("md5", "sha1", "sha256", "sha512"):
        return hashlib.new(o, x.encode()).hexdigest()
    if o == "urldecode":
        if "%" in x or "+" in x:
            raise Unclear("escapes")
        return x
    if o == "split":
        if x == "":
            raise Unclear("split of an empty text")
        return x.split(y)
    if o == "mvcount":
        return len(x)
    if o == "mvindex":
        return x[y] if y < len(x) else None
    if o == "match":
        return pyre(y).search(x) is not None
    if o in ("cidrmatch", "ipmask"):
        try:
            ipaddress.ip_address(y)
        except ValueError:
            raise Unclear("no address")
    if o == "cidrmatch":
        return ipaddress.ip_address(y) in ipaddress.ip_network(x)
    if o == "ipmask":
        return str(ipaddress.ip_address(int(ipaddress.ip_address(x)) & int(ipaddress.ip_address(y))))
    if o == "printf":
        return x % tuple(a[1:])
    raise KeyError(o)


def fillval(v, t):
    """The value fillnull stores in an empty field of a type, None when it cannot."""
    if t == "s":
        return str(v)
    return v if not isinstance(v, str) else None


def apply(st, evs, cols, types):
    """(events, columns, types) after a stage."""
    k = st[0]
    types = dict(types)
    if k in ("search", "where"):
        return [e for e in evs if ev(st[1], e) is True], cols, types
    if k == "eval":
        cols = list(cols)
        evs = [dict(e) for e in evs]
        for n, x in st[1]:
            t = typ(x, types)
            for e in evs:
                e[n] = ev(x, e)
            types[n] = t
            if n not in cols:
                cols.append(n)
        return evs, cols, types
    if k == "fields" and st[1] == "-":
        cols = [c for c in cols if c not in st[2]]
    elif k in ("fields", "table"):
        cols = list(st[2] if k == "fields" else st[1])
    elif k == "rename":
        m = {c: c for c in cols}
        for a, b in st[1]:
            if a != b and b in m.values():
                raise Unclear("renamed to a field that exists")
            m = {c: b if n == a else n for c, n in m.items()}
        return [{m.get(c, c): v for c, v in e.items()} for e in evs], [m.get(c, c) for c in cols], {m.get(c, c): t for c, t in types.items()}
    elif k == "rex":
        evs = [dict(e) for e in evs]
        for e in evs:
            v = e[st[1]]
            m = None if v is None else pyre(st[2]).search(v)
            if v is not None and m is None:
                raise Unclear("no match")
            for g in st[3]:
                e[g] = None if v is None else m.group(g) if m.group(g) is not None else ""
        for g in st[3]:
            types[g] = "s"
        return evs, list(cols) + [g for g in st[3] if g not in cols], types
    elif k == "fillnull":
        v = 0 if st[1] is None else st[1]
        evs = [dict(e) for e in evs]
        for c in (st[2] or cols):
            if types[c] in "tlr":
                if any(e[c] is None for e in evs):
                    raise Unclear("number for a time")
                continue
            f = fillval(v, types[c])
            if f is None:
                raise Unclear("text for an empty number")
            for e in evs:
                if e[c] is None:
                    e[c] = f
        return evs, cols, types
    elif k == "convert":
        cols = list(cols)
        evs = [dict(e) for e in evs]
        for fn, f, a in st[2]:
            n = a or f
            for e in evs:
                v = e[f]
                if v is not None:
                    v = strftime(v, st[1] or "%m/%d/%Y %H:%M:%S") if fn == "ctime" else conv(fn, v)
                e[n] = v
            types[n] = "s" if fn == "ctime" else "n"
            if n not in cols:
                cols.append(n)
        return evs, cols, types
    elif k in ("bin", "addtotals", "spath"):
        evs = [dict(e) for e in evs]
        n = {"bin": st[-1] or st[-2], "addtotals": st[2] if k == "addtotals" and st[2] else "Total", "spath": st[-1] or st[-2]}[k]
        for e in evs:
            if k == "bin":
                v = e[st[3]]
                if v is None:
                    raise Unclear("bin of an absent time")
                v = BASE + datetime.timedelta(seconds=(v - BASE).total_seconds() // st[2] * st[2])
            elif k == "addtotals":
                v = sum(e[c] for c in st[1] if e[c] is not None)
            else:
                v = None if e[st[1]] is None else jsonpath(e[st[1]], st[2])
            e[n] = v
        types[n] = dict(bin="t", addtotals="n").get(k, "s")
        return evs, list(cols) + [n] * (n not in cols), types
    elif k == "sort":
        for s, f in reversed(st[2]):
            if any(e[f] is None for e in evs):
                raise Unclear("order of absent values")
            vs = sorted(e[f] for e in evs)
            if any(isinstance(a, float) and a != b and abs(a - b) < 1e-9 * max(1, abs(a)) for a, b in zip(vs, vs[1:])):
                raise Unclear("order at the limit of precision")
            evs = sorted(evs, key=lambda e: e[f], reverse=(s == "-") != bool(len(st) > 3 and st[3]))
        n = 10000 if st[1] is None else st[1]
        return evs[:n] if n else evs, cols, types
    elif k == "head":
        return evs[:headn(st)], cols, types
    else:
        raise KeyError(k)
    return [{c: e[c] for c in cols} for e in evs], cols, {c: types[c] for c in cols}


HEADS = ["", "", "", "limit=", "count<", "count<=", "count <= ", "({}>count)", "({}>=count)", "(count<{})"]


def head(r, n, limit=True):
    """A head: of a number of events, or while the count of events fulfils a condition (and the one that no longer does)."""
    form = r.choice(HEADS)
    return ["head", n, form, r.choice(["", "true", "t", "false", "f"]) if "count" in form and r.random() < .5 else ""]


def headn(st):
    form = st[2] if len(st) > 2 else ""
    return st[1] + ("=" in form and "count" in form) + ("count" in form and len(st) > 3 and st[3] in ("t", "true"))


def run_ref(stages, rows, fields=FIELDS, types=None):
    evs, cols, types = events(rows, fields), [f for f, _ in fields], dict(types or TYPES)
    for st in stages:
        evs, cols, types = apply(st, evs, cols, types)
    return evs, cols, types


def contains(e, ops):
    return isinstance(e, list) and ((e and isinstance(e[0], str) and e[0] in ops) or any(contains(x, ops) for x in e))


TKINDS = ["search", "where", "eval", "eval", "eval", "eval", "eval", "eval", "fields", "table", "rename", "rex", "fillnull", "bin", "addtotals", "convert", "spath"]
KINDS = ["search", "where", "where", "eval", "eval", "eval", "fields", "table", "rename", "rex", "fillnull"]


class Build:
    """A pipeline under construction together with its reference result: a stage whose result SPL does not
    prescribe for these events is left out."""

    def __init__(self, r, rows, fields=FIELDS, types=None, solid=SOLID, runtime=True, feats=()):
        self.r, self.stages = r, []
        self.evs, self.cols, self.types = events(rows, fields), [f for f, _ in fields], {f: (types or TYPES)[f] for f, _ in fields}
        self.g = Gen(r, self.types, solid, runtime, feats)

    def add(self, s):
        if s is None:
            return False
        try:
            self.evs, self.cols, self.types = apply(s, self.evs, self.cols, self.types)
        except Unclear:
            return False
        self.stages.append(s)
        return True

    def grow(self, n, kinds=KINDS):
        want = len(self.stages) + n
        for _ in range(n * 6):
            if len(self.stages) >= want:
                break
            g = self.g
            before = dict(g.types), set(g.solid)
            if not self.add(g.stage(kinds)):
                g.types, g.solid = dict(before[0]), set(before[1])
            elif len(text(self.stages[-1])) > 900:
                break
        return self
