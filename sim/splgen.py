"""Random SPL text over every command the transpiler knows (valid, half-valid and invalid), for the
checks whose oracle needs no meaning of the query (C01-C03, C07, C13)."""
import re

FIELDS = ["x", "y", "z", "user", "host", "src_ip", "dest", "_time", "bytes", "status", "sourcetype", "action", "Process.name"]
IDX = ["main", "alpha", "beta", "gamma", "delta", "epsilon", "zeta", "wineventlog"]
STRS = ["a", "b c", "admin*", "10.0.0.0/8", "x_y", "*svc*", "%Y-%m-%d", "foo.bar", "A1"]
ODD_STRS = ["a\tb", "two  spaces", "trail ", " lead", "\t", "caf\u00e9 \u65e5\u672c", "# no comment", "it's", "say \\\"hi\\\"", "a\\\\b", "C:\\\\Temp\\\\n", "a, b, ", "(((", "x" * 120, "{x}", "line1  \nline2", "\u00a0", "\"\"\"", "\U0001f600", "a;b", "None", "F.col", "df_1"]


def relative(r, q):
    """A text that is nearly this one: another spelling, spacing, name, quote or number at one or two places."""
    for _ in range(r.choice([1, 1, 1, 2])):
        if not q:
            return "x"
        at = lambda ok: r.choice([i for i, c in enumerate(q) if ok(c)] or [r.randrange(len(q))])
        k = r.choice(["case", "case", "allcase", "space", "space", "inner", "quote", "digit", "cut", "more", "name", "double"])
        if k == "case":
            i = at(str.isalpha)
            q = q[:i] + q[i].swapcase() + q[i + 1:]
        elif k == "allcase":
            q = r.choice([str.upper, str.lower, str.swapcase])(q)
        elif k == "space":
            i = at(str.isspace)
            q = q[:i] + r.choice(["  ", "\n", "\t", " "]) + q[i + 1:]
        elif k == "inner":
            # inside a string, where it means something
            inside = [m.start() for m in re.finditer(r'(?<=[\w*])\s+(?=[\w*]+")', q)] or [at(str.isspace)]
            i = r.choice(inside)
            q = q[:i] + r.choice(["  ", "\t", "_", ""]) + q[i + 1:]
        elif k == "quote":
            q = q.replace(*r.choice([('"', "'"), ("'", '"'), ('"', "")]))
        elif k == "digit":
            i = at(str.isdigit)
            q = q[:i] + r.choice(["0", "1", "7", "10", "1.0", "01"]) + q[i + 1:]
        elif k == "cut":
            q = q[:-r.randint(1, 3)]
        elif k == "more":
            q += r.choice([" ", "\n", "x", "|", " | head 2", ")", "\""])
        elif k == "name":
            q = q.replace(r.choice(FIELDS[:8] + IDX), r.choice(FIELDS[:8] + IDX))
        else:
            q = q.replace(*r.choice([("=", "=="), ("==", "="), (", ", " "), (" ", "  "), ("AND", "and"), (" by ", " BY ")]), 1)
    return q


def f(r):
    return r.choice(FIELDS)


def fs(r, a=1, b=4, sep=", "):
    k = r.randint(a, b)
    names = r.sample(FIELDS[:12], k)
    if k > 1 and r.random() < .12:
        # a name that comes twice
        names[r.randrange(k)] = r.choice(names)
        names += r.sample(FIELDS[:8], 2) + names[:1]
    return sep.join(names)


def num(r):
    return r.choice(["0", "1", "3", "10", "42", "100", "2.5", "-1", "5000"])


def s(r):
    return '"' + (r.choice(STRS) if r.random() < .85 else r.choice(ODD_STRS)) + '"'


FN1 = ["len", "abs", "ceiling", "floor", "sqrt", "exp", "ln", "lower", "upper", "trim", "ltrim", "rtrim", "md5", "sha1", "sha256",
       "isnull", "isnotnull", "isnum", "tostring", "tonumber", "typeof", "mvcount", "mvdedup", "mvsort", "round", "urldecode",
       "sin", "cos", "tan", "json_valid", "json_keys", "ipmask", "isstr", "isint", "bit_not", "memk", "rmunit", "rmcomma", "acos", "tanh"]


def expr(r, d=2):
    k = r.random()
    if d <= 0 or k < .25:
        return r.choice([f(r), num(r), s(r)])
    if k < .45:
        return f"{expr(r, d-1)} {r.choice(['+', '-', '*', '/', '.', '%'])} {expr(r, d-1)}"
    if k < .7:
        return f"{r.choice(FN1)}({expr(r, d-1)})"
    return r.choice([
        lambda: f"if({cond(r, d-1)}, {expr(r, d-1)}, {expr(r, d-1)})",
        lambda: f"case({cond(r, d-1)}, {expr(r, d-1)}, {cond(r, d-1)}, {expr(r, d-1)})",
        lambda: f"coalesce({fs(r, 1, 3)})",
        lambda: f"round({expr(r, d-1)}, 2)",
        lambda: f"pow({expr(r, d-1)}, 2)",
        lambda: f"substr({f(r)}, 1, 3)",
        lambda: f"replace({f(r)}, \"a\", \"b\")",
        lambda: f"split({f(r)}, \",\")",
        lambda: f"strftime({f(r)}, \"%Y-%m-%dT%H:%M:%S\")",
        lambda: f"strptime({f(r)}, \"%Y-%m-%d\")",
        lambda: f"relative_time({f(r)}, \"-1d@d\")",
        lambda: f"mvindex({f(r)}, 0)",
        lambda: f"mvindex({f(r)}, 0, 2)",
        lambda: f"mvappend({fs(r, 2, 3)})",
        lambda: f"mvjoin({f(r)}, \",\")",
        lambda: f"mvfilter({f(r)} > 3)",
        lambda: f"mvzip({f(r)}, {f(r)})",
        lambda: f"max({expr(r, d-1)}, {expr(r, d-1)})",
        lambda: f"min({expr(r, d-1)}, {expr(r, d-1)})",
        lambda: f"nullif({f(r)}, {expr(r, d-1)})",
        lambda: f"printf(\"%d\", {f(r)})",
        lambda: f"json_object(\"k\", {f(r)})",
        lambda: f"json_extract({f(r)}, \"a.b\")",
        lambda: "now()", lambda: "pi()", lambda: "random()", lambda: "null()", lambda: "true()",
        lambda: f"nosuchfunction({f(r)})",
    ])()


def cond(r, d=2):
    k = r.random()
    if d <= 0 or k < .5:
        return f"{f(r)} {r.choice(['=', '!=', '>', '<', '>=', '<=', '=='])} {num(r)}" if r.random() < .6 else f"{f(r)} {r.choice(['=', '!='])} {s(r)}"
    if k < .7:
        return f"({cond(r, d-1)} {r.choice(['AND', 'OR'])} {cond(r, d-1)})"
    return r.choice([
        lambda: f"NOT {cond(r, d-1)}",
        lambda: f"like({f(r)}, \"%a%\")",
        lambda: f"match({f(r)}, \"^a.*\")",
        lambda: f"cidrmatch(\"10.0.0.0/8\", {f(r)})",
        lambda: f"isnull({f(r)})", lambda: f"isnotnull({f(r)})",
        lambda: f"in({f(r)}, \"a\", \"b\")",
        lambda: f"searchmatch(\"{f(r)}=1\")",
    ])()


def sterm(r, d=2):
    k = r.random()
    if k < .3:
        return f"{f(r)}{r.choice(['=', '!=', '>', '<', '>=', '<='])}{num(r)}" if r.random() < .5 else f"{f(r)}{r.choice(['=', '!='])}{r.choice([s(r), 'foo', 'fo*', '*'])}"
    if k < .42:
        return f"index={r.choice(IDX)}"
    if k < .5:
        return f"sourcetype={r.choice(['wineventlog', '\"x:y\"'])}"
    if k < .58:
        return f"{f(r)} IN ({', '.join(r.choice(['1', '2', 'a', s(r)]) for _ in range(r.randint(1, 4)))})"
    if k < .64:
        return s(r)
    if d > 0 and k < .8:
        return f"({sterm(r, d-1)} {r.choice(['AND', 'OR', ''])} {sterm(r, d-1)})"
    if d > 0 and k < .88:
        return f"NOT {sterm(r, d-1)}"
    return f"{f(r)}=*" if r.random() < .85 else r.choice(["bareword", "earliest=-1d"])


def search(r):
    n = r.randint(1, 4)
    t = [sterm(r) for _ in range(n)]
    if r.random() < .5:
        t = [f"index={i}" for i in r.sample(IDX, r.randint(1, 4))] + t
    r.shuffle(t)
    return " ".join(t)


AGG1 = ["count", "dc", "distinct_count", "sum", "avg", "mean", "min", "max", "median", "mode", "range", "stdev", "stdevp", "var", "varp",
        "values", "list", "first", "last", "earliest", "latest", "rate", "sumsq", "estdc", "perc95", "exactperc90", "percentile50", "upperperc99"]


def agg(r):
    k = r.random()
    a = "count" if k < .15 else f"{r.choice(AGG1)}({f(r)})" if k < .9 else f"count(eval({cond(r, 0)}))" if k < .95 else "earliest_time(x)"
    if r.random() < .6:
        a += f" AS {r.choice(['n', 'total', 'm', 'first_seen', 'vals', 'k'])}{r.randint(0, 9)}"
    return a


def aggs(r):
    return r.choice([", ", " "]).join(agg(r) for _ in range(r.randint(1, 4)))


def by(r, kw="BY"):
    return f" {kw} {fs(r, 1, 3)}" if r.random() < .7 else ""


def sub(r, d=1):
    return "[search " + search(r) + ("" if d <= 0 else "".join(" | " + command(r, 0) for _ in range(r.randint(0, 2)))) + "]"


def command(r, d=1):
    return r.choice([
        lambda: f"search {search(r)}",
        lambda: f"where {cond(r)}",
        lambda: "eval " + ", ".join(f"{r.choice(['a', 'b', 'c', 'x'])}={expr(r)}" for _ in range(r.randint(1, 3))),
        lambda: f"fields {r.choice(['', '+ ', '- '])}{fs(r)}",
        lambda: f"table {r.choice([fs(r), fs(r, sep=' ')])}",
        lambda: "rename " + ", ".join(f"{f(r)} AS {r.choice(['aa', 'bb', 'cc'])}{i}" for i in range(r.randint(1, 3))),
        lambda: f"stats {aggs(r)}{by(r)}",
        lambda: f"eventstats {aggs(r)}{by(r)}",
        lambda: f"streamstats {aggs(r)}{by(r)}",
        lambda: f"sort {r.choice(['', '10 ', '0 '])}{', '.join(r.choice(['', '-', '+']) + x for x in r.sample(FIELDS[:8], r.randint(1, 3)))}",
        lambda: f"head {r.choice(['5', '10', 'limit=3', ''])}",
        lambda: f"head {cond(r, 0)} keeplast=true",
        lambda: f"fields {fs(r)}", lambda: f"where {cond(r)}",
        lambda: f"eval {r.choice(['a', 'b'])}={expr(r)}", lambda: f"sort {fs(r, 1, 2)}",
        lambda: f"fillnull {r.choice(['', 'value=0 ', 'value=NULL '])}{r.choice(['', fs(r, sep=' ')])}",
        lambda: f"join {r.choice(['', 'type=left ', 'type=inner '])}{fs(r, 1, 2)} {sub(r, d)}",
        lambda: f"lookup {r.choice(['users', 'assets'])} {f(r)}{r.choice(['', ' AS ' + f(r)])} OUTPUT{r.choice(['', 'NEW'])} {', '.join(r.choice(['p', 'q AS qq', 'rr']) for _ in range(r.randint(1, 3)))}",
        lambda: f"rex field={f(r)} \"(?<u>\\w+)-(?<v>\\d+)\"",
        lambda: f"rex mode=sed field={f(r)} \"s/a/b/g\"",
        lambda: f"regex {f(r)}{r.choice(['=', '!='])}\"^a.+\"",
        lambda: f"spath input={f(r)} output={f(r)} path=a.b",
        lambda: f"bin span={r.choice(['5m', '1h', '10'])} {f(r)}{r.choice(['', ' AS t'])}",
        lambda: f"convert {r.choice(['ctime', 'num', 'auto', 'mktime'])}({f(r)}){r.choice(['', ' AS cc'])}",
        lambda: f"addtotals {r.choice(['', 'fieldname=tot '])}{fs(r, 2, 3, ' ')}",
        lambda: f"top {r.choice(['', '5 ', 'limit=3 '])}{fs(r, 1, 2)}{by(r, 'by')}",
        lambda: f"rare {fs(r, 1, 2)}{by(r, 'by')}",
        lambda: f"dedup {r.choice(['', '2 '])}{fs(r, 1, 2)}",
        lambda: r.choice(["collect index=summary", "map search=\"search index=x\"", "inputlookup users.csv", "tail 5",
                          "nosuchcommand a=b", "eval ", "stats count by", "return 3 $x", "format", f"mvexpand {f(r)}", f"mvcombine {f(r)}"]),
    ])()


def leading(r):
    k = r.random()
    if k < .7:
        return search(r)
    return r.choice([
        lambda: f"makeresults count={r.randint(1, 5)}",
        lambda: "multisearch " + " ".join(sub(r) for _ in range(r.randint(2, 3))),
        lambda: f"tstats {aggs(r)} from datamodel={r.choice(['Network_Traffic', 'Endpoint.Processes'])} where {cond(r, 0)} by {fs(r, 1, 3)}",
        lambda: f"tstats summariesonly=true count min(_time) as firstTime from datamodel=Endpoint.Processes where Processes.x=\"a\" by Processes.dest Processes.user",
        lambda: "datamodel Model Dataset search",
        lambda: f"eval a={expr(r)}",
    ])()


def query(r, maxlen=4):
    q = leading(r)
    for _ in range(r.randint(0, maxlen)):
        q += " | " + command(r)
    if r.random() < .06:  # damage it
        i = r.randrange(len(q))
        q = q[:i] + r.choice(["", "(", '"', "|", "`", "[", ")"]) + q[i + r.randint(0, 3):]
    return q
