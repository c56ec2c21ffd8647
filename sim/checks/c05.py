"""C05: combined macro sources.

A run combines 1-5 simulated sources (plain dicts, the real registry and folder loaders, stand-ins that
answer, report absence, fail, or change their mind after the n-th call; nested combinations), with or
without a fallback, and performs a history of lookups during which sources fail, recover and change. The
reference walks the sources' own current answers in order. Some histories run from several threads.
"""
import json, os, pathlib, shutil
import common, sched, storage
from common import short


class NotFound(KeyError):
    pass


EXC = {"OSError": lambda: OSError(5, "Input/output error"), "ValueError": lambda: ValueError("malformed"), "TimeoutError": lambda: TimeoutError("slow"),
       "LookupError": lambda: LookupError("ambiguous"), "IndexError": lambda: IndexError("list index out of range"), "TypeError": lambda: TypeError("not a mapping"),
       "AttributeError": lambda: AttributeError("get"), "RuntimeError": lambda: RuntimeError("backend down"), "PermissionError": lambda: PermissionError(13, "denied"),
       "FileNotFoundError": lambda: FileNotFoundError(2, "gone"), "UnicodeDecodeError": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"),
       "StopIteration": lambda: StopIteration(), "RecursionError": lambda: RecursionError("deep"), "MemoryError": lambda: MemoryError(),
       "NotImplementedError": lambda: NotImplementedError(), "AssertionError": lambda: AssertionError(), "JSONDecodeError": lambda: json.JSONDecodeError("x", "", 0)}
ABSENT = {"KeyError": lambda: KeyError("no"), "NotFound": lambda: NotFound("no")}
NAMES = ["m", "n", "o", "x*"]


def preload():
    global M
    sched.install_locks()
    from spl_transpiler import macros as M


def answer(rng, tag):
    k = rng.random()
    if k < .45:
        return ["def", f"index=i{tag[0]}", rng.choice(["dict", "model", "empty", "dict", "model", "hollow"])]
    if k < .75:
        return ["absent", rng.choice(["KeyError", "KeyError", "NotFound"])]
    return ["err", rng.choice(sorted(EXC))]


def source(rng, tag, depth=0):
    tag[0] += 1
    k = rng.random()
    if k < .15 and depth < 2:
        return dict(kind="nested", sources=[source(rng, tag, depth + 1) for _ in range(rng.randint(0, 3))], fallback=fallback(rng, tag))
    if k < .3:
        return dict(kind="dict", defs={n: f"index=d{tag[0]}{n}" for n in NAMES if rng.random() < .4}, form=rng.choice(["dict", "model"]))
    if k < .42:
        return dict(kind="registry", defs={n: f"index=r{tag[0]}{n}" for n in NAMES if rng.random() < .4}, again=rng.random() < .25)
    if k < .55:
        return dict(kind="folder", defs={n: rng.choice([f"index=f{tag[0]}{n}", None]) for n in NAMES if rng.random() < .5})
    out = dict(kind="sim", falsy=rng.random() < .2, plan={})
    for n in NAMES:
        tag[0] += 1
        out["plan"][n] = [answer(rng, tag) for _ in range(rng.choice([1, 1, 2, 3]))]
    return out


def fallback(rng, tag):
    tag[0] += 1
    return rng.choice([None, None, ["def", f"index=fb{tag[0]}", "model"], ["def", f"index=fb{tag[0]}", "dict"], ["err", rng.choice(sorted(EXC))], ["absent", "KeyError"]])


def generate(rng, tier):
    tag = [0]
    sources = [source(rng, tag) for _ in range(rng.randint(0, 5))]
    ops = []
    for _ in range(rng.randint(2, 12 if tier == "quick" else 40)):
        k = rng.random()
        if k < .8:
            ops.append(["get", rng.choice(NAMES)])
        elif k < .9:
            ops.append(["register", rng.randrange(8), rng.choice(NAMES), f"index=new{len(ops)}"])
        else:
            ops.append(["drop", rng.randrange(8), rng.choice(NAMES)])
    threads = []
    if rng.random() < .35:
        threads = [[rng.choice(NAMES) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(2, 3))]
    return dict(sources=sources, fallback=fallback(rng, tag), ops=ops, threads=threads, preempt=rng.choice([.1, .4, .8]), randseed=rng.randrange(1 << 40))


def make(kind, val):
    if kind == "dict":
        return dict(definition=val)
    if kind == "hollow":
        return {}  # the source has the macro, in a form that is no definition
    if kind == "empty":
        return M.MacroDefinition(definition="")
    return M.MacroDefinition(definition=val)


class Sim:
    """A simulated source; its n-th answer to a name is planned, the last one repeats."""

    def __init__(self, spec, ctx):
        self.spec, self.ctx, self.n, self.frozen = spec, ctx, {}, False

    def peek(self, name):
        plan = self.spec["plan"].get(name) or [["absent", "KeyError"]]
        return plan[min(self.n.get(name, 0), len(plan) - 1)]

    def __len__(self):
        return 0 if self.spec.get("falsy") else 1

    def __getitem__(self, name):
        a = self.peek(name)
        sched.point("source")
        if a[0] == "err":
            self.ctx.fault("source_error")
            raise EXC[a[1]]()
        if a[0] == "absent":
            raise ABSENT[a[1]]()
        return make(a[2], a[1])

    def advance(self):
        if not self.frozen:
            for n in NAMES:
                self.n[n] = self.n.get(n, 0) + 1


def outcome(fn):
    try:
        v = fn()
    except Exception as e:
        if type(e).__name__ == "ValidationError":
            return ["bad"]
        return ["absent"] if isinstance(e, KeyError) else ["err", type(e).__name__, str(e).replace(os.environ["VERIF_SCRATCH"], "~")]
    try:
        return ["ok", M.MacroDefinition.model_validate(v).definition]
    except Exception:
        return ["bad"]


MAPS, PLAIN, KNOWS = [], [], {}


class Combo:
    def __init__(self, spec, fb, ctx, base, path="c"):
        self.ctx, self.fbspec, self.fbcalls = ctx, fb, []
        self.parts, self.leaves = [], []
        for i, s in enumerate(spec):
            p = f"{path}{i}"
            if s["kind"] == "nested":
                c = Combo(s["sources"], s["fallback"], ctx, base, p + "_")
                self.parts.append((c, c.loader))
                self.leaves += c.leaves
                continue
            if s["kind"] == "dict":
                o = {n: make(s["form"], v) for n, v in s["defs"].items()}
            elif s["kind"] == "registry":
                # two registries may start from the same definitions; what one learns later is its own
                if not (s.get("again") and MAPS):
                    MAPS.append({n: make("model", v) for n, v in s["defs"].items()})
                    PLAIN.append(dict(s["defs"]))
                o = M.RegistryMacroLoader(MAPS[-1])
                KNOWS[id(o)] = dict(PLAIN[-1])
            elif s["kind"] == "folder":
                d = f"{base}/{p}"
                os.makedirs(d)
                for n, v in s["defs"].items():
                    with open(f"{d}/{n}.json", "w") as f:
                        f.write(json.dumps(dict(definition=v)) if v is not None else '{"definition": ')
                o = M.FolderMacroLoader(pathlib.Path(d))
            else:
                o = Sim(s, ctx)
            self.leaves.append(o)
            self.parts.append((None, o))
        kw = {}
        if fb is not None:
            kw["fallback_fn"] = self.fallback
        self.loader = M.CombinedMacroLoader(*[o for _, o in self.parts], **kw)

    def fallback(self, name):
        self.fbcalls.append(name)
        sched.point("fallback")
        f = self.fbspec
        if f[0] == "err":
            self.ctx.fault("fallback_error")
            raise EXC[f[1]]()
        if f[0] == "absent":
            raise KeyError("fallback")
        return make(f[2], f[1])

    def expected(self, name):
        """(outcome, whether the fallback is due)"""
        for c, o in self.parts:
            if id(o) in KNOWS:
                r = ["ok", KNOWS[id(o)][name]] if name in KNOWS[id(o)] else ["absent"]
            else:
                r = c.expected(name)[0] if c else outcome(lambda: o[name])
            if r[0] != "absent":
                return r, False
        if self.fbspec is None:
            return ["absent"], False
        f = self.fbspec
        if f[0] == "def":
            return ["ok", "" if f[2] == "empty" else f[1]], True
        return (["absent"] if f[0] == "absent" else outcome(lambda: (_ for _ in ()).throw(EXC[f[1]]()) if f[1] != "StopIteration" else _stop())), True


def _stop():
    raise StopIteration()


def run(scn, ctx):
    common.seed_rust(scn["randseed"])
    base = os.path.join(os.environ["VERIF_SCRATCH"], f"c05-{os.getpid()}")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    try:
        body(scn, ctx, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def body(scn, ctx, base):
    MAPS.clear(), PLAIN.clear(), KNOWS.clear()
    top = Combo(scn["sources"], scn["fallback"], ctx, base)
    kinds = [s["kind"] for s in scn["sources"]]
    got = {"ok": 0, "absent": 0, "err": 0, "bad": 0}
    fell = 0

    def check(name, o, who=""):
        nonlocal fell
        exp, due = top.expected(name)
        ctx.log("get", who, name, o, exp)
        if o != exp:
            ctx.fail("wrong-source", f"lookup of {name!r}{who} in {kinds} (fallback {scn['fallback']}) gives {short(o)}, the first source that has it or fails says {short(exp)}")
        got[o[0]] += 1
        return due

    for i, op in enumerate(scn["ops"]):
        if op[0] == "get":
            n0 = len(top.fbcalls)
            o = outcome(lambda: top.loader[op[1]])
            due = check(op[1], o)
            if (len(top.fbcalls) > n0) != due:
                ctx.fail("fallback-use", f"lookup of {op[1]!r} in {kinds}: the fallback was {'used' if not due else 'not used'}")
            fell += due
            for l in top.leaves:
                if isinstance(l, Sim):
                    l.advance()
        elif top.leaves:
            o = top.leaves[op[1] % len(top.leaves)]
            if op[0] == "register" and isinstance(o, M.RegistryMacroLoader):
                o.register(op[2], M.MacroDefinition(definition=op[3]))
                KNOWS[id(o)][op[2]] = op[3]
            elif op[0] == "register" and isinstance(o, dict):
                o[op[2]] = dict(definition=op[3])
            elif op[0] == "drop" and isinstance(o, dict):
                o.pop(op[2], None)
            ctx.log(op)
    if scn["threads"]:
        S = sched.Scheduler(ctx, preempt=scn["preempt"], files=("/spl_transpiler/",))
        for ti, ns in enumerate(scn["threads"]):
            def fn(ns=ns):
                return [(n, outcome(lambda: top.loader[n])) for n in ns]
            S.spawn(fn, f"t{ti}")
        for ti, (st, val) in enumerate(S.run()):
            if st != "ok":
                ctx.fail("thread-died", f"{val!r}")
            for n, o in val:
                check(n, o, f" in thread {ti}")
        ctx.fault("preemption", S.switches)
    ctx.probe("fallback_used", fell)
    for k, v in got.items():
        ctx.probe("lookup_" + k, v)
    ctx.state(scn["sources"], scn["fallback"])
    ctx.nontrivial = got["ok"] > 0 and len(scn["sources"]) > 1
    ctx.sample = dict(sources=scn["sources"][:2], fallback=scn["fallback"], ops=scn["ops"][:4])
