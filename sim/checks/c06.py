"""C06: macro expansion is exact, all-or-nothing and leaves no residue.

A run builds a set of macros from structured pieces (so that the exact expansion is known by
construction, without parsing), serves them from real and simulated sources that fail at seeded lookups,
and performs a history of expansions: good ones, ones with a missing macro, a broken definition or wrong
arguments, expansions from several threads switched at every line, and sources that themselves expand
macros while being asked.
"""
import json, os, pathlib, re, shutil
import common, sched
from common import short
from checks import c05

LITS = ["index=main", "| eval x=1", "| where a>1", "| stats count by host", '| rex "(?<u>\\d+)\\s"', '| search user="a\\\\b"', "NOT", "(", ")", "AND x=1",
        "$tok$", "$earliest$", "$A$", "$Field$", "é=1", "| table a, b", "[search index=z]", "| head 5", "\n", "100%", "cost=$5"]
VALS = ["y", "1", "-1", "a.b", '"s"', '"a,b"', "if(x>1,2,3)", '"\\d+\\\\x"', '"a\\1b"', '"\\n"', '"\\g<0>"', "$b$", '"$a$"', '"$$"', "*", "x+1", '"é"', "lower(trim(x))", '"%s {0}"', "_time", "src_ip", '"a)b("', '"x=y"']
PARAMS = ["a", "b", "p", "field", "x1", "ab", "a_b"]


def preload():
    global M, st
    sched.install_locks()
    import spl_transpiler as st
    from spl_transpiler import macros as M
    c05.M = M


def gen_call(rng, target, params, macros, depth):
    """["call", name, [[argname or None, piece-text]], style]"""
    ps = macros[target]["args"] if target in macros else []
    args = []
    named = rng.random() < .3 and ps
    for p in ps:
        if params and rng.random() < .6:
            q = rng.choice(params)
            v = rng.choice(["${}$", "${}$", "lower(${}$)"]).format(q)
        else:
            v = rng.choice(VALS)
            # a value that looks like a parameter of the definition it stands in would be filled there
            if any(f"${q}$" in v for q in params):
                v = "y"
        args.append([p if named else None, v])
    if named:
        rng.shuffle(args)
    return ["call", target, args, rng.choice(["", "", " ", "()"])]


def generate(rng, tier):
    n = rng.randint(1, 7)
    names = rng.sample(["m", "n", "f", "g", "h1", "security_content_ctime", "my-macro", "a/b", "k*", "Z", "summariesonly", "%q%"], n)
    macros = {}

    def define(i, args):
        body = []
        for _ in range(rng.randint(0, 5)):
            k = rng.random()
            if k < .35 and i:
                body.append(gen_call(rng, rng.choice(names[:i]), args, macros, 0))
            elif k < .65 and args:
                body.append(["param", rng.choice(args), rng.choice(["{}", "{}", '"{}"', "f({}, {})", "{}{}", "x{}y"])])
            else:
                body.append(["lit", rng.choice(LITS)])
        if body and rng.random() < .15:
            body.append(["lit", rng.choice(["|", " | ", "| |", "  "])])
        return dict(args=args, body=body)
    for i, name in enumerate(names):
        macros[name] = define(i, rng.sample(PARAMS, rng.choice([0, 0, 1, 1, 2, 3])))
    if rng.random() < .06:
        # a long chain
        for i in range(rng.randint(20, 60)):
            macros[f"c{i}"] = dict(args=[], body=[["lit", f"s{i}"]] + ([["call", f"c{i-1}", [], ""]] if i else []))
        names.append(list(macros)[-1])

    def query():
        q = []
        for _ in range(rng.randint(1, 5 if tier == "quick" else 9)):
            q.append(gen_call(rng, rng.choice(names), [], macros, 0) if rng.random() < .65 else ["lit", rng.choice(LITS)])
        if rng.random() < .2:
            q.append(["lit", rng.choice(["|", " | ", "\n|"])])
        return q

    def spoil(q):
        q = json.loads(json.dumps(q))
        calls = [p for p in q if p[0] == "call"]
        if not calls:
            q.append(["call", "nosuch", [], ""])
            return q
        c = rng.choice(calls)
        k = rng.random()
        if k < .3:
            c[1] = "nosuch"
        elif k < .5 and c[2]:
            c[2].pop(rng.randrange(len(c[2])))
        elif k < .7:
            c[2].append([c[2][0][0] and "zz" if c[2] else None, "extra"])
        elif c[2] and c[2][0][0]:
            # a name that is no parameter, or one parameter twice and another not at all
            c[2][0][0] = c[2][1][0] if len(c[2]) > 1 and rng.random() < .6 else "wrongname"
        elif len(c[2]) > 1:
            c[2][0][0] = macros[c[1]]["args"][0]
        else:
            c[1] = "nosuch"
        return q

    ops = []
    qs = [query() for _ in range(rng.randint(1, 4))]
    for _ in range(rng.randint(2, 8 if tier == "quick" else 20)):
        q = rng.choice(qs)
        faults = []
        if rng.random() < .35:
            q = spoil(q)
        if rng.random() < .3:
            faults = [[rng.choice([0, 0, 1, 1, 2, 3, 5]), rng.choice(sorted(c05.EXC) + ["KeyError", "invalid"])]]
        ops.append([rng.choice(["expand", "expand", "parse"]), q, faults])
        if rng.random() < .2:
            # registered anew, with another definition
            i = rng.randrange(n)
            args = macros[names[i]]["args"]
            ops.append(["redef", names[i], define(i, args if rng.random() < .8 else rng.sample(PARAMS, rng.choice([0, 1, 2])))])
            if rng.random() < .03:
                ops.append(["many", rng.choice([20, 70, 150, 300]), names[i]])
            ops.append([rng.choice(["expand", "expand", "parse"]), q, []])
    threads = []
    if rng.random() < .5:
        for _ in range(rng.randint(2, 4)):
            threads.append([[spoil(q) if rng.random() < .2 else q for q in [rng.choice(qs)]][0] for _ in range(rng.randint(1, 3))])
    cyc = rng.random() < .05
    return dict(macros=macros, ops=ops, threads=threads, source=rng.choice(["sim", "sim", "dict", "fresh", "registry", "folder", "combined"]), form=rng.choice(["dict", "model"]),
                reenter=rng.random() < .15, cycle=cyc, preempt=rng.choice([.1, .3, .7]), randseed=rng.randrange(1 << 40))


def text_of(pieces):
    out = []
    for p in pieces:
        if p[0] == "lit":
            out.append(p[1])
        elif p[0] == "param":
            out.append(p[2].replace("{}", f"${p[1]}$"))
        else:
            out.append(call_text(p))
    return " ".join(out)


def call_text(p):
    _, name, args, style = p
    if not args:
        return "`" + (name if style != "()" else name + "()") .replace("", "") + "`" if style != " " else f"` {name} `"
    return "`" + name + "(" + ",".join((f"{n}={v}" if n else v) for n, v in args) + ")`"


PAT = re.compile(r"\$([A-Za-z0-9_]+)\$")


def fill(v, env):
    return PAT.sub(lambda m: env[m.group(1)] if m.group(1) in env else m.group(0), v) if env else v


class Bad(Exception):
    pass


def expand(pieces, env, macros, errors):
    out = []
    for p in pieces:
        if p[0] == "lit":
            out.append(fill(p[1], env))
        elif p[0] == "param":
            out.append(p[2].replace("{}", env[p[1]]))
        else:
            _, name, args, _ = p
            m = macros.get(name)
            if m is None:
                errors.add("KeyError")
                continue
            ps = m["args"]
            named = [n for n, _ in args]
            if len(args) != len(ps) or any(named) and (not all(named) or set(named) != set(ps)):
                errors.add("ValueError")
                continue
            vals = [fill(v, env) for _, v in args]
            sub = dict(zip(named if any(named) else ps, vals))
            out.append(expand(m["body"], sub, macros, errors))
    return " ".join(out)


def norm(s):
    while True:
        t = s.strip().rstrip("|").strip()
        if t == s:
            return s
        s = t


class Source:
    def __init__(self, macros, form, ctx, reenter):
        self.macros, self.form, self.ctx, self.reenter = macros, form, ctx, reenter
        self.calls = 0
        self.faults = []
        self.fired = []
        self.depth = 0

    def __getitem__(self, name):
        sched.point("source")
        n = self.calls
        self.calls += 1
        for k, e in self.faults:
            if k == n:
                if not self.depth:
                    self.fired.append(e)  # inside a nested expansion the failure is the nested one's
                self.ctx.fault("source_" + e)
                if e == "invalid":
                    return dict(arguments=[])
                if e == "KeyError":
                    raise KeyError("injected")
                raise c05.EXC[e]()
        if self.reenter and not self.depth and sched.current is None:
            self.depth = 1
            self.ctx.fault("reentrant_expansion")
            try:
                M.substitute_macros(f"`{list(self.macros)[0]}` | x `nosuch`", self)
            except Exception:
                pass
            finally:
                self.depth = 0
        if name not in self.macros:
            raise KeyError(f"no {name}")
        m = self.macros[name]
        d = dict(arguments=list(m["args"]), definition=text_of(m["body"]))
        return d if self.form == "dict" else M.MacroDefinition(**d)


def run(scn, ctx):
    common.seed_rust(scn["randseed"])
    base = os.path.join(os.environ["VERIF_SCRATCH"], f"c06-{os.getpid()}")
    shutil.rmtree(base, ignore_errors=True)
    try:
        body(scn, ctx, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def body(scn, ctx, base):
    macros = dict(scn["macros"])
    defs = {n: dict(arguments=list(m["args"]), definition=text_of(m["body"])) for n, m in macros.items()}
    models = {n: M.MacroDefinition(**d) for n, d in defs.items()}
    sim = Source(macros, scn["form"], ctx, scn["reenter"])
    kind = scn["source"]
    if kind == "sim":
        src = sim
    elif kind in ("dict", "fresh"):
        src = defs if scn["form"] == "dict" else models
    elif kind == "registry":
        src = M.RegistryMacroLoader(models)
    elif kind == "folder":
        os.makedirs(base)
        for n, d in defs.items():
            p = pathlib.Path(base, f"{n}.json")
            p.parent.mkdir(exist_ok=True)
            p.write_text(json.dumps(d))
        src = M.FolderMacroLoader(pathlib.Path(base))
    else:
        half = {n: models[n] for n in list(models)[: len(models) // 2]}
        src = M.CombinedMacroLoader(half, sim)

    def redefine(n, m):
        macros[n] = m
        defs[n] = dict(arguments=list(m["args"]), definition=text_of(m["body"]))
        models[n] = M.MacroDefinition(**defs[n])
        if kind == "registry":
            src.register(n, models[n])
        elif kind == "combined" and n in half:
            half[n] = models[n]

    def source():
        # a mapping made for one expansion only
        return dict(src) if kind == "fresh" else src
    good = bad = 0

    def outcome(fn):
        try:
            return ["ok", fn()]
        except Exception as e:
            return ["err", type(e).__name__, str(e)[:300].replace(base, "~"), [c.__name__ for c in type(e).__mro__]]

    def judge(q, text, o, fired, who):
        nonlocal good, bad
        errors = set()
        exp = norm(expand(q, {}, macros, errors))
        ctx.log(who, text, o[:3], exp, sorted(errors), fired)
        if fired:
            want = {"invalid": "ValidationError"}.get(fired[-1], fired[-1])
            if o[0] == "ok":
                ctx.fail("failure-hidden", f"expansion of {text!r}{who}: a source failed with {fired[-1]} and the result is {short(o[1])!r}")
            if o[1] != want and not (kind == "combined" and want == "KeyError" and o[1] == "KeyError"):
                ctx.fail("other-error", f"expansion of {text!r}{who}: a source failed with {want}, the expansion with {short(o[1:3])}")
            bad += 1
            return
        if errors:
            if o[0] == "ok":
                ctx.fail("partial-expansion", f"expansion of {text!r}{who} has {sorted(errors)} inside but gives {short(o[1])!r}")
            if not set(o[3]) & errors:
                ctx.fail("other-error", f"expansion of {text!r}{who}: expected one of {sorted(errors)}, got {short(o[1:3])}")
            bad += 1
            return
        if o[0] != "ok":
            ctx.fail("expansion-fails", f"expansion of {text!r}{who} fails with {short(o[1:3])}; expected {short(exp)!r}; macros {short(defs)}")
        if norm(o[1]) != exp or "`" in o[1]:
            ctx.fail("wrong-expansion", f"expansion of {text!r}{who} gives {short(o[1])!r}; expected {short(exp)!r}; macros {short(defs)}")
        good += 1

    if scn["cycle"]:
        cyc = {"u": dict(definition="x `v`"), "v": dict(definition="`u`"), "s": dict(definition="y | `s`")}
        for q in ("`u`", "a `s` b"):
            o = outcome(lambda: M.substitute_macros(q, cyc))
            ctx.log("cycle", q, o[:2])
            if o[0] == "ok":
                ctx.fail("cycle-accepted", f"{q!r} never stops expanding but gives {short(o[1])!r}")
            ctx.probe("cyclic")
    for i, (op, q, faults) in enumerate(scn["ops"]):
        if op == "redef":
            if kind != "folder":
                redefine(q, faults)
                ctx.probe("redefined")
            continue
        if op == "many":
            sim.faults = []
            for j in range(q):
                outcome(lambda: M.substitute_macros(f"index=i{j} `{faults}` | head {j}", source()))
            ctx.probe("long_histories")
            continue
        text = text_of(q)
        sim.calls, sim.faults, sim.fired = 0, faults, []
        if op == "expand":
            o = outcome(lambda: M.substitute_macros(text, source()))
            judge(q, text, o, list(sim.fired), "")
        else:
            o = outcome(lambda: M.parse_with_macros(text, source()))
            errors = set()
            exp = norm(expand(q, {}, macros, errors))
            if not errors and not sim.fired:
                e = outcome(lambda: st.parse(exp))
                same = o[0] == e[0] and (o[1] == e[1] if o[0] == "ok" else o[1] == e[1])
                ctx.log("parse", text, o[0], e[0])
                if not same:
                    ctx.fail("parse-with-macros", f"parsing {text!r} with macros gives {short(o[:3])}, parsing its expansion {exp!r} gives {short(e[:3])}")
                ctx.probe("parsed_" + o[0])
                good += o[0] == "ok"
            elif o[0] == "ok":
                ctx.fail("failure-hidden", f"parsing {text!r} with macros succeeds although {sorted(errors)} {sim.fired}")
        sim.faults = []
        if sim.fired or i % 3 == 2:
            # recovered: the same expansion now works
            sim.fired = []
            o = outcome(lambda: M.substitute_macros(text, source()))
            judge(q, text, o, [], " retried")
    if scn["threads"]:
        sim.faults, sim.fired = [], []
        S = sched.Scheduler(ctx, preempt=scn["preempt"], files=("/spl_transpiler/",))
        for ti, qs in enumerate(scn["threads"]):
            def fn(qs=qs):
                return [outcome(lambda: M.substitute_macros(text_of(q), source())) for q in qs]
            S.spawn(fn, f"t{ti}")
        for ti, ((s, val), qs) in enumerate(zip(S.run(), scn["threads"])):
            if s != "ok":
                ctx.fail("thread-died", f"{val!r}")
            for q, o in zip(qs, val):
                judge(q, text_of(q), o, [], f" in thread {ti}")
        ctx.fault("preemption", S.switches)
    ctx.probe("expansions_ok", good)
    ctx.probe("expansions_failed", bad)
    queries = [o for o in scn["ops"] if o[0] in ("expand", "parse")]
    ctx.state(sorted(defs), [text_of(o[1]) for o in queries])
    ctx.nontrivial = good > 0 and any(p[0] == "call" for o in queries for p in o[1])
    ctx.sample = dict(macros=dict(list(defs.items())[:2]), queries=[text_of(o[1]) for o in queries[:2]])
