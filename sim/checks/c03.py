"""C03: formatter failures are cosmetic.

A run is a history of conversions during which the formatter (the real one, behind a seam) fails at
seeded points: not importable, import raising, its configuration raising, the call raising before or
after doing its work, attributes missing. The reference is the same conversion with formatting off.
"""
import ast, sys
import common, splgen, corpus
from common import outcome, short
import checks.c01 as c01
from checks.c01 import pristine

seam = None


def preload():
    global seam, st
    import spl_transpiler as st
    c01.st = st
    seam = common.BlackSeam()


class Weird(Exception):
    def __str__(self):
        raise ValueError("cannot describe myself")


class Base(BaseException):
    pass


EXC = {
    "ImportError": lambda: ImportError("no"), "ModuleNotFoundError": lambda: ModuleNotFoundError("black"),
    "ValueError": lambda: ValueError("bad"), "SyntaxError": lambda: SyntaxError("x"), "MemoryError": lambda: MemoryError(),
    "RecursionError": lambda: RecursionError("deep"), "OSError": lambda: OSError(28, "No space left on device"),
    "TimeoutError": lambda: TimeoutError(), "KeyError": lambda: KeyError("k"), "AssertionError": lambda: AssertionError(),
    "UnicodeError": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"), "StopIteration": lambda: StopIteration(),
    "Weird": lambda: Weird(), "NotImplementedError": lambda: NotImplementedError("Black is not installed"),
    "RuntimeError": lambda: RuntimeError("Cannot parse: 1:3"), "TypeError": lambda: TypeError("missing argument"),
    "ExceptionGroup": lambda: ExceptionGroup("g", [ValueError(1)]),
}
KINDS = ["call", "call", "call", "call_after", "mode", "missing", "import_none", "import_raise", "no_attr_mode", "no_attr_format"]
LOADING = ("missing", "import_none", "import_raise", "no_attr_mode", "no_attr_format")


def generate(rng, tier):
    qs = [rng.choice(corpus.QUERIES) if rng.random() < .2 else splgen.query(rng, 3) for _ in range(rng.randint(1, 3))]
    if rng.random() < .3:
        qs.append(splgen.relative(rng, rng.choice(qs)))
    ops = []
    for _ in range(rng.randint(2, 9)):
        fault = None
        if rng.random() < .55:
            fault = [rng.choice(KINDS), rng.choice(sorted(EXC))]
        ops.append([rng.randrange(len(qs)), rng.random() < .5, rng.random() < .85, fault])
    return dict(queries=qs, ops=ops, randseed=rng.randrange(1 << 40))


class Finder:
    def __init__(self, exc, fired):
        self.exc, self.fired = exc, fired

    def find_spec(self, name, path=None, target=None):
        if name == "black":
            self.fired.append("import")
            raise self.exc()
        return None


def run(scn, ctx):
    common.seed_rust(scn["randseed"])
    qs = scn["queries"]
    black = seam.black
    plain = {}
    fired = []
    plan = [None]

    def hook(when, name, a, k):
        f = plan[0]
        if not f:
            return
        kind, exc = f
        if kind == "call" and when == "before" and name.startswith("format") or kind == "call_after" and when == "after" and name.startswith("format") \
                or kind == "mode" and when == "before" and name in ("FileMode", "Mode"):
            fired.append(kind)
            raise EXC[exc]()

    # what a process in which no formatter ever failed gives for the same conversions
    used = sorted({(q, rt) for q, rt, fmt, _ in scn["ops"] if fmt})
    healthy = dict(zip(used, pristine([(qs[q], rt, True) for q, rt in used], scn["randseed"])))
    seam.hooks.append(hook)
    nfault = nok = 0

    def body():
        nonlocal nfault, nok
        for i, (q, rt, fmt, fault) in enumerate(scn["ops"]):
            text = qs[q]
            key = (q, rt)
            if key not in plain:
                plain[key] = outcome(st.convert_spl_to_pyspark, text, allow_runtime=rt, format_code=False)
            fired.clear()
            undo = []
            if fault and fmt:
                kind, exc = fault
                plan[0] = fault
                if kind in ("missing", "import_none"):
                    undo.append(lambda: sys.modules.__setitem__("black", black))
                    sys.modules["black"] = None
                    fired.append("import")
                elif kind == "import_raise":
                    fd = Finder(EXC[exc], fired)
                    del sys.modules["black"]
                    sys.meta_path.insert(0, fd)
                    undo.append(lambda: (sys.meta_path.remove(fd), sys.modules.__setitem__("black", black)))
                elif kind in ("no_attr_mode", "no_attr_format"):
                    import types
                    m = types.ModuleType("black")
                    m.__dict__.update({k: v for k, v in vars(black).items() if k not in (("FileMode", "Mode") if kind == "no_attr_mode" else ("format_str", "format_file_contents"))})
                    sys.modules["black"] = m
                    undo.append(lambda: sys.modules.__setitem__("black", black))
                    fired.append("attr")
            try:
                o = outcome(st.convert_spl_to_pyspark, text, allow_runtime=rt, format_code=fmt)
            finally:
                for u in undo:
                    u()
                plan[0] = None
            p = plain[key]
            ctx.log(i, q, rt, fmt, fault, o[0], len(o[1]))
            where = f"{text!r} (runtime={rt}, formatter fault {fault})"
            if p[0] != "ok":
                if o != p:
                    ctx.fail("changed-error", f"conversion {where} gives {short(o)}, without formatting {short(p)}")
                continue
            nok += 1
            if not fmt:
                if o != p:
                    ctx.fail("residue", f"conversion {where} without formatting gives {short(o)}, earlier {short(p)}")
                continue
            if fired:
                nfault += 1
                ctx.fault("formatter_" + fault[0])
                ctx.probe("exc_" + fault[1])
                if o[0] != "ok":
                    ctx.fail("formatter-failure-surfaced", f"conversion {where} fails with {short(o)}")
                # a formatter that was loaded earlier may be used although importing it would now fail
                if o[1] != p[1] and not (fault[0] in LOADING and o == healthy[key]):
                    ctx.fail("fallback-text", f"conversion {where} gives {short(o[1])!r}, unformatted {short(p[1])!r}")
            else:
                if o[0] != "ok":
                    ctx.fail("formatting-broke-conversion", f"conversion {where} with a healthy formatter fails with {short(o)}")
                try:
                    a = ast.dump(ast.parse(p[1]))
                except SyntaxError:
                    a = None  # not a program: whatever the formatter itself makes of it, or the text unchanged
                    ctx.probe("invalid_python")
                    try:
                        canon = seam.real["format_str"](p[1], mode=seam.real["FileMode"]()).strip()
                    except Exception:
                        canon = p[1]
                    if "".join(o[1].split()) not in ("".join(p[1].split()), "".join(canon.split())):
                        ctx.fail("fallback-text", f"conversion {where} gives {short(o[1])!r}, unformatted {short(p[1])!r}")
                if a is not None:
                    try:
                        b = ast.dump(ast.parse(o[1]))
                    except SyntaxError as e:
                        b = f"syntax error {e}"
                    if a != b:
                        ctx.fail("formatting-changed-program", f"conversion {where}: formatted {short(o[1])!r} is not the program {short(p[1])!r}")
                    canon = seam.real["format_str"](p[1], mode=seam.real["FileMode"]()).strip()
                    ctx.probe("healthy_formatted" if o[1] == canon else "healthy_other_style")
                ctx.probe("healthy")
                if o != healthy[key]:
                    ctx.fail("residue", f"conversion {where} with a healthy formatter gives {short(o[1])!r}, in a process without earlier failures {short(healthy[key])!r}")
    try:
        common.in_thread(body)
    finally:
        seam.hooks.remove(hook)
    ctx.state([[f and f[0], f and f[1]] for _, _, _, f in scn["ops"]], qs)
    ctx.nontrivial = nfault > 0 and nok > nfault
    ctx.sample = dict(queries=qs[:1], ops=scn["ops"][:5])
