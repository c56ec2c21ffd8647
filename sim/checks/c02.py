"""C02: concurrent conversions do not interfere and always finish.

A run starts 2-4 real threads under the baton scheduler: they parse, render (their own or a shared
syntax tree), convert and expand macros. Threads are switched at every executed line of the Python
layer and at every entry to and exit from the code formatter, where the real interpreter lock can
change hands. Formatter calls may also fail, or re-enter the transpiler from the same thread. In a
`cold` run no thread has used the formatter yet: its module appears in sys.modules empty and without
a __spec__ (as a compiled module does), and gets its attributes a few at a time, with scheduling points
in between.
"""
import importlib.abc, importlib.machinery, random, sys, types
import common, splgen, corpus, sched
from common import outcome, short
from checks import c01

seam = None


def preload():
    global seam, st, macros
    sched.install_locks()
    import spl_transpiler as st
    from spl_transpiler import macros
    c01.st = st
    seam = common.BlackSeam()


def generate(rng, tier):
    qs = []
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        qs.append(splgen.relative(rng, rng.choice(qs)) if qs and k > .7 else rng.choice(corpus.QUERIES) if k < .15 else splgen.query(rng, 3))
    nt = rng.randint(2, 4 if tier == "quick" else 6)
    threads = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops.append([rng.choice(["convert", "convert", "shared", "shared", "render", "macro"]), rng.randrange(len(qs)),
                        rng.random() < .5, rng.random() < .7])
        threads.append(ops)
    reent = [[rng.randrange(nt), rng.randrange(4), rng.randrange(len(qs)), rng.random() < .5, rng.random() < .4] for _ in range(rng.choice([0, 0, 1, 2]))]
    faults = [[rng.randrange(nt), rng.randrange(4)] for _ in range(rng.choice([0, 0, 1, 2]))]
    cold = rng.random() < .35
    return dict(cold=cold, failing=rng.choice([0, 0, 1, 2, 9]) if cold else 0, queries=qs, threads=threads, reenter=reent, faults=faults, preempt=rng.choice([.05, .2, .5, .9]), randseed=rng.randrange(1 << 40))


class ColdFormatter(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Imports `black` again, the way an extension module with single-phase initialisation is imported."""

    def __init__(self, S, ctx, failing=0, failed=None):
        self.S, self.ctx, self.imports = S, ctx, 0
        self.failing, self.failed = failing, failed
        self.full = sys.modules.pop("black")
        sys.meta_path.insert(0, self)

    def find_spec(self, name, path=None, target=None):
        if name == "black":
            return importlib.machinery.ModuleSpec(name, self)

    def create_module(self, spec):
        self.imports += 1
        self.ctx.fault("formatter_import")
        m = types.ModuleType("black")
        del m.__spec__
        sys.modules["black"] = m
        names = sorted(n for n in vars(self.full) if not n.startswith("__"))
        for i in range(0, len(names), max(1, len(names) // 8)):
            self.S.point("formatter import")
            for n in names[i:i + max(1, len(names) // 8)]:
                setattr(m, n, getattr(self.full, n))
            if self.failing and i and self.ctx.choices.pick(3) == 1:
                break
        if self.failing:
            # as far as it came, or it is not installed at all
            self.failing -= 1
            self.ctx.fault("formatter_import_fails")
            self.failed()
            sys.modules.pop("black", None)
            raise ImportError("No module named 'black'", name="black")
        self.S.point("formatter imported")
        return m

    def exec_module(self, module):
        pass

    def close(self):
        sys.meta_path.remove(self)
        sys.modules["black"] = self.full


def run(scn, ctx):
    qs = scn["queries"]
    nt = len(scn["threads"])
    need = {(q, rt, fmt) for ops in scn["threads"] for _, q, rt, fmt in ops}
    need |= {(q, rt, fmt) for _, _, q, rt, fmt in scn["reenter"]}
    need |= {(q, rt, False) for q, rt, _ in need}
    need = sorted(need)
    exp = dict(zip(need, c01.pristine([(qs[q], rt, fmt) for q, rt, fmt in need], scn["randseed"] * 3)))
    common.seed_rust(scn["randseed"])
    shared = {}
    for ops in scn["threads"]:
        for op, q, _, _ in ops:
            if op == "shared" and q not in shared:
                shared[q] = outcome(st.parse, qs[q])
    reg = macros.RegistryMacroLoader({})
    for i, q in enumerate(qs):
        reg.register(f"m{i}", macros.MacroDefinition(definition=q))
    S = sched.Scheduler(ctx, preempt=scn["preempt"], files=("/spl_transpiler/",))
    fcalls = [0] * nt
    faulted = {}
    curcall = {}
    inside = [0]
    maxin = [0]
    nested = {}

    def hook(when, name, a, k):
        t = S.me()
        if t is None:
            return
        if when == "before":
            inside[0] += 1
            maxin[0] = max(maxin[0], inside[0])
        else:
            inside[0] -= 1
        S.point(f"formatter {when} {name}")
        if when != "before" or name != "format_str":
            return
        n = fcalls[t.idx]
        fcalls[t.idx] += 1
        if nested.get(t.idx):
            return
        for (ti, kth, q, rt, fmt) in scn["reenter"]:
            if ti == t.idx and kth == n:
                nested[t.idx] = True
                ctx.fault("reentrant_conversion")
                o = outcome(st.convert_spl_to_pyspark, qs[q], allow_runtime=rt, format_code=fmt)
                nested[t.idx] = False
                if o != exp[q, rt, fmt]:
                    bad.append(("reentrant", q, rt, fmt, o, exp[q, rt, fmt]))
        if [t.idx, n] in [list(x) for x in scn["faults"]]:
            ctx.fault("formatter_error")
            curcall[t.idx] = True
            inside[0] -= 1
            raise RuntimeError("formatter failed")

    bad = []

    def worker(ti):
        def body():
            res = []
            for op, q, rt, fmt in scn["threads"][ti]:
                curcall[ti] = False
                if op == "shared":
                    p = shared[q]
                    o = outcome(st.render_pyspark, p[1], allow_runtime=rt, format_code=fmt) if p[0] == "ok" else p
                elif op == "render":
                    o = outcome(lambda: st.render_pyspark(st.parse(qs[q]), allow_runtime=rt, format_code=fmt))
                elif op == "macro" and "`" not in qs[q]:
                    o = outcome(lambda: macros.substitute_macros(f"`m{q}`", reg))
                    res.append(("macro", q, rt, fmt, o, False))
                    continue
                else:
                    op = "convert"
                    o = outcome(st.convert_spl_to_pyspark, qs[q], allow_runtime=rt, format_code=fmt)
                res.append((op, q, rt, fmt, o, curcall[ti]))
            return res
        return body

    seam.hooks.append(hook)
    for i in range(nt):
        S.spawn(worker(i), f"t{i}")
    def import_failed():
        curcall[S.me().idx] = True
    cold = ColdFormatter(S, ctx, scn.get("failing") or 0, import_failed) if scn.get("cold") else None
    try:
        results = S.run()
    finally:
        if cold:
            cold.close()
        seam.hooks.remove(hook)
    okc = 0
    for ti, (st_, val) in enumerate(results):
        if st_ != "ok":
            ctx.fail("thread-died", f"thread {ti} died: {val!r}")
        for op, q, rt, fmt, o, faulted_ in val:
            ctx.log(ti, op, q, rt, fmt, c01.hash_(o)[:12])
            if op == "macro":
                want = qs[q].strip()
                while want != want.rstrip().rstrip("|").strip():
                    want = want.rstrip().rstrip("|").strip()
                e = ["ok", want]
            else:
                e = exp[q, rt, fmt and not faulted_]
            okc += o[0] == "ok"
            if o != e:
                ctx.fail("interference", f"thread {ti}: {op} of {qs[q]!r} (runtime={rt}, format={fmt}) running with {nt - 1} other threads gives {short(o)}, alone {short(e)}")
    for op, q, rt, fmt, o, e in bad:
        ctx.fail("interference", f"{op} conversion of {qs[q]!r} (runtime={rt}, format={fmt}) gives {short(o)}, alone {short(e)}")
    # afterwards, alone again
    for (q, rt, fmt) in need[:4]:
        o = outcome(st.convert_spl_to_pyspark, qs[q], allow_runtime=rt, format_code=fmt)
        if o != exp[q, rt, fmt]:
            ctx.fail("residue", f"after the concurrent calls {qs[q]!r} (runtime={rt}, format={fmt}) gives {short(o)}, before {short(exp[q, rt, fmt])}")
    if maxin[0] > 1:
        ctx.probe("two_threads_inside_formatter")
    ctx.fault("preemption", S.switches)
    ctx.nontrivial = S.switches > nt and okc > 0
    ctx.sample = dict(queries=qs[:2], threads=scn["threads"], switches=S.switches)
