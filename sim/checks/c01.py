"""C01: conversion is deterministic and history-independent.

A run is one history of conversions in one simulated process. The randomness of hashing (the only
entropy the conversion could see) is drawn from the run's seed through the getrandom() seam; the worker
process itself runs under its own PYTHONHASHSEED. For every distinct (query, options) of the history
the reference outcome comes from a pristine fork of the process under another hash seed, in which it is
the first conversion ever made.
"""
import json, os, random
import common, splgen, corpus
from common import outcome, short

seam = None


def preload():
    global seam, st
    import spl_transpiler as st
    seam = common.BlackSeam()


OPTS = [[False, False], [True, False], [False, True], [True, True]]


def generate(rng, tier):
    nq = rng.randint(1, 5)
    qs = []
    for _ in range(nq):
        k = rng.random()
        if k < .2:
            qs.append(rng.choice(corpus.QUERIES))
        elif k < .55 and qs:
            qs.append(splgen.relative(rng, rng.choice(qs)))
        else:
            qs.append(splgen.query(rng, 5 if tier == "thorough" else 3))
    ops = []
    for _ in range(rng.randint(2, 14)):
        q = rng.randrange(len(qs))
        o = rng.choice(OPTS[:2]) if rng.random() < .85 else rng.choice(OPTS[2:])
        ops.append([rng.choice(["convert", "convert", "parse", "render", "render", "rehash"]), q] + o)
    warm = None
    if rng.random() < .04:
        # a long history of other conversions somewhere in between
        warm = [rng.randrange(len(ops)), rng.randrange(1 << 30), rng.choice([70, 130, 260, 520])]
    return dict(queries=qs, ops=ops, warm=warm, randseed=rng.randrange(1 << 40))


def pristine(convs, seed):
    """Outcomes of these conversions, in this order, in a process that never converted anything before
    and has its own hash keys."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            common.seed_rust(seed)
            o = common.in_thread(lambda: [norm(outcome(st.convert_spl_to_pyspark, q, allow_runtime=rt, format_code=fmt)) for q, rt, fmt in convs])
            data = json.dumps(o).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        data += d
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return json.loads(data) if data else [["crash", status]] * len(convs)


def norm(o):
    return o


def hash_(o):
    import hashlib
    return hashlib.sha256(json.dumps(o).encode()).hexdigest()


def run(scn, ctx):
    qs = scn["queries"]
    ref, asts = {}, {}
    used = sorted({(q, rt, fmt) for _, q, rt, fmt in scn["ops"]})
    convs = [(qs[q], rt, fmt) for q, rt, fmt in used]
    fwd = pristine(convs, scn["randseed"] * 7)
    bwd = pristine(convs[::-1], scn["randseed"] * 11 + 1)[::-1]
    k = scn["randseed"] % len(convs)
    alone = pristine([convs[k]], scn["randseed"] * 13 + 2)[0]
    for n, key in enumerate(used):
        for other in [bwd[n]] + ([alone] if n == k else []):
            if fwd[n] != other:
                ctx.fail("differs-between-processes", f"converting {convs[n][0]!r} (runtime={key[1]}, format={key[2]}) gives {short(fwd[n])} in one process and {short(other)} in another")
        ref[key] = fwd[n]
    if alone[0] == "crash":
        ctx.fail("process-crash", f"converting {convs[k][0]!r} kills the process")
    common.seed_rust(scn["randseed"])
    ok = bad = 0

    def one(i, op, q, rt, fmt):
        text = qs[q]
        if op == "rehash":
            # continue in another thread, which draws its own hash keys
            ctx.fault("fresh_hash_keys")
            return common.in_thread(lambda: outcome(st.convert_spl_to_pyspark, text, allow_runtime=rt, format_code=fmt))
        if op == "convert":
            return outcome(st.convert_spl_to_pyspark, text, allow_runtime=rt, format_code=fmt)
        if op == "parse" or q not in asts:
            a = outcome(st.parse, text)
            if a[0] != "ok":
                return a
            asts[q] = a[1]
        return outcome(st.render_pyspark, asts[q], allow_runtime=rt, format_code=fmt)

    def history():
        nonlocal ok, bad
        for i, (op, q, rt, fmt) in enumerate(scn["ops"]):
            if scn.get("warm") and scn["warm"][0] == i:
                r = random.Random(scn["warm"][1])
                for _ in range(scn["warm"][2]):
                    outcome(st.convert_spl_to_pyspark, splgen.query(r, 2), allow_runtime=r.random() < .5, format_code=False)
                ctx.fault("long_history", scn["warm"][2])
            o = one(i, op, q, rt, fmt)
            exp = ref[q, rt, fmt]
            ctx.log(i, op, q, rt, fmt, hash_(o)[:12])
            if o[0] == "ok":
                ok += 1
            else:
                bad += 1
                ctx.fault("failing_conversion")
            if o != exp:
                hist = "; ".join(f"{a}#{b}" for a, b, _, _ in scn["ops"][:i])
                ctx.fail("history-or-hash-dependent",
                         f"{op} of {qs[q]!r} (runtime={rt}, format={fmt}) after [{hist}] gives {short(o)} but alone it gives {short(exp)}")
    common.in_thread(history)
    ctx.fault("hash_seed", 4)
    ctx.probe("conversions_ok", ok)
    ctx.probe("conversions_failed", bad)
    ctx.state(hash_([(o[0], o[1], o[2]) for o in scn["ops"]]), hash_(qs))
    ctx.nontrivial = ok >= 1 and len(scn["ops"]) >= 2
    ctx.sample = dict(queries=qs[:2], ops=scn["ops"][:6])
