#!/usr/bin/env python3
"""Driver: check.py <ID> [--replay FILE] [--runs N] [--seconds S] [--selftest N]

Builds /repo's working tree, runs seeded simulations in parallel worker processes, minimises and
replays the first violation, writes evidence/<ID>.json. Exit 0: held on everything explored.
Exit 1: violation (line VIOLATION property=<id> replay=<path>). Exit 2: the check itself failed.
"""
import importlib, json, os, pathlib, queue, shutil, subprocess, sys, tempfile, threading, time

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
sys.path.insert(0, str(HERE))
import stage as stagemod
from core import subseed

ID = sys.argv[1].upper()
args = sys.argv[2:]


def opt(name, default=None):
    return args[args.index(name) + 1] if name in args else default


TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
META = importlib.import_module(f"meta").CHECKS[ID]
NW = int(os.environ.get("VERIF_WORKERS", "0")) or max(2, min(8, os.cpu_count() or 4))


def known_findings():
    """The findings of this property that are recorded as open, each with the scenario that shows it."""
    known = json.load(open(VERIF / "known_findings.json"))["findings"]
    return [k for k in known if k["property"] == ID and k["status"] == "open"]


class Worker:
    def __init__(self, stage, hashseed, scratch, idx=0):
        self.stage, self.hashseed, self.scratch = stage, hashseed, scratch
        self.p = None

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = {k: v for k, v in os.environ.items() if not k.upper().startswith(("TRANSPILER_", "PYTHON", "LD_", "BLACK_", "RUST_"))}
        path = [str(HERE)]
        if META.get("stubs"):
            path += [str(HERE / "stubs" / s) for s in META["stubs"]]
        path.append(str(self.stage / "py"))
        env.update(PYTHONPATH=":".join(path), PYTHONHASHSEED=str(self.hashseed), PYTHONDONTWRITEBYTECODE="1",
                   LD_PRELOAD=str(self.stage / "shim.so"), TZ="UTC", LANG="C.UTF-8", VERIF_SCRATCH=self.scratch,
                   TMPDIR=self.scratch, HOME=self.scratch, VERIF_REPO=str(stagemod.REPO), PYTHONWARNINGS="ignore", RUST_BACKTRACE="0",
                   VERIF_KNOWN=json.dumps([k["violation_class"] for k in known_findings()]))

        self.err = open(os.path.join(self.scratch, f"worker-{id(self)}.log"), "w+")
        self.p = subprocess.Popen([stagemod.VENV, str(HERE / "zygote.py"), ID, str(r1), str(w2)], env=env, cwd=self.scratch,
                                  pass_fds=(r1, w2), stdin=subprocess.DEVNULL,
                                  stdout=self.err, stderr=self.err)
        os.close(r1)
        os.close(w2)
        self.w = os.fdopen(w1, "w")
        self.r = os.fdopen(r2, "r")

    def call(self, **req):
        if self.p is None:
            self.start()
        try:
            self.w.write(json.dumps(req) + "\n")
            self.w.flush()
            line = self.r.readline()
        except (BrokenPipeError, OSError):
            line = ""
        if not line:
            self.err.flush()
            self.err.seek(0)
            msg = self.err.read()[-3000:]
            self.stop()
            return dict(harness_error="worker died: " + msg)
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            for f in (self.w, self.r):
                try:
                    f.close()
                except OSError:
                    pass
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.err.close()
            self.p = None


def hashseed_for(i):
    return subseed(SEED, "hashseed", i) % 4294967295


def run_scn(stage, scratch, scn, timeout=None, fresh=None):
    """Run one explicit scenario in a worker of its recorded hash seed."""
    key = scn.get("hashseed", 0)
    w = fresh if fresh is not None else Worker(stage, key, scratch)
    out = w.call(cmd="run", scn=scn, timeout=timeout or META.get("timeout", 60), want_choices=True)
    if fresh is None:
        w.stop()
    return out


def minimise(stage, scratch, scn, out, budget):
    """Greedy shrinking: drop workload steps and faults (the check's own moves), then turn schedule
    choices into the plain one. A candidate is kept when the same class of violation persists."""
    mod = importlib.import_module(f"shrinkers")
    cls = out["violation"]["cls"]
    w = Worker(stage, scn.get("hashseed", 0), scratch)
    t_end = time.time() + budget
    tmo = META.get("timeout", 60)
    if cls == "no-progress":
        tmo = min(tmo, 10)
    tried = 0

    def same(c):
        nonlocal tried
        tried += 1
        o = w.call(cmd="run", scn=c, timeout=tmo, want_choices=True)
        return o if (o.get("violation") or {}).get("cls") == cls else None

    def same_step(c):
        # a dropped step shifts the recorded choices: try them first, then fresh ones of the same seed
        o = same(c)
        if o:
            return c, o
        o = same(dict(c, choices=None))
        return (dict(c, choices=o["choices"]), o) if o else None

    best, bout = scn, out
    progress = True
    while progress and time.time() < t_end:
        progress = False
        for cand in mod.candidates(ID, best):
            if time.time() > t_end:
                break
            got = same_step(cand)
            if got:
                best, bout, progress = *got, True
                break
        if progress:
            continue
        ch = best.get("choices") or []
        last = max((i for i, v in enumerate(ch) if v), default=-1)
        if last + 1 < len(ch):
            cand = dict(best, choices=ch[:last + 1])
            o = same(cand)
            if o:
                best, bout = cand, o
                ch = cand["choices"]
        n = max(1, len(ch) // 2)
        while n >= 1 and time.time() < t_end:
            i = 0
            while i < len(ch) and time.time() < t_end:
                if any(ch[i:i + n]):
                    c2 = ch[:i] + [0] * len(ch[i:i + n]) + ch[i + n:]
                    cand = dict(best, choices=c2)
                    o = same(cand)
                    if o:
                        best, bout, ch, progress = cand, o, c2, True
                i += n
            n //= 2
    w.stop()
    return best, bout, tried


def main():
    scratch = tempfile.mkdtemp(prefix=f"verif-{ID}-")
    try:
        return main2(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main2(scratch):
    stage, build_s, sha = stagemod.ensure()
    if "--replay" in args:
        rp = json.load(open(opt("--replay")))
        scn = dict(rp["scenario"], keep_log=True)
        out = run_scn(stage, scratch, scn)
        for l in out.get("tail", []):
            print(l)
        if out.get("harness_error"):
            print("HARNESS ERROR", out["harness_error"])
            return 2
        if out.get("violation"):
            exact = out["hash"] == rp["event_hash"] and out["violation"] == rp["violation"]
            print(f"reproduced{' exactly' if exact else ' (different event log)'}: {out['violation']['cls']}: {out['violation']['msg']}")
            print(f"VIOLATION property={ID} replay={opt('--replay')}")
            return 1
        print("not reproduced")
        return 0
    if "--selftest" in args:
        return selftest(stage, scratch, int(opt("--selftest")))
    runs = int(opt("--runs", META["runs"][TIER]))
    seconds = float(opt("--seconds", META["seconds"][TIER]))
    return explore(stage, scratch, build_s, sha, runs, seconds, known_findings())


def selftest(stage, scratch, n):
    """Determinism: every seed is run in three processes with different hash seeds and at different
    worker counts; the event logs must be identical."""
    res = {}
    for variant in range(3):
        nw = (1, 4, 8)[variant]
        q = queue.Queue()
        for i in range(n):
            q.put(i)
        lock = threading.Lock()

        def loop(k):
            w = Worker(stage, hashseed_for(variant * 100 + k + 7), scratch)
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    break
                o = w.call(cmd="gen", seed=subseed(SEED, ID, i), tier=TIER, timeout=META.get("timeout", 60))
                with lock:
                    res.setdefault(i, []).append((o.get("hash"), bool(o.get("violation")), o.get("harness_error") or o.get("gap")))
            w.stop()

        ts = [threading.Thread(target=loop, args=(k,)) for k in range(nw)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    bad = [i for i, v in res.items() if len(set(v)) != 1]
    herr = [v for v in res.values() if any(x[2] for x in v)]
    print(f"selftest {ID}: {n} seeds x3 processes, {len(bad)} differ, {len(herr)} harness errors, {sum(v[0][1] for v in res.values())} violations")
    for i in bad[:5]:
        print("  differs:", i, res[i])
    for v in herr[:2]:
        print(v[0][2])
    return 2 if bad or herr else 0


def explore(stage, scratch, build_s, sha, runs, seconds, known):
    t_start = time.time()
    deadline = t_start + seconds
    lock = threading.Lock()
    nxt = [0]
    agg = dict(done=0, faults={}, probes={}, states=set(), hashes=set(), nontrivial=0, ntset=set(), events=0, simtime=0,
               recheck=0, mismatch=[], herr=[], gaps={}, samples=[], wall=0.0)
    found = []
    stop = threading.Event()
    corpus = [e for e in json.load(open(VERIF / "sim" / "regress.json")).get(ID, [])]

    def absorb(o):
        agg["done"] += 1
        for k, v in o["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        for k, v in o["probes"].items():
            agg["probes"][k] = agg["probes"].get(k, 0) + v
        agg["states"].update(o["states"])
        if o["nontrivial"]:
            agg["nontrivial"] += 1
            agg["ntset"].add(o["hash"])
        agg["hashes"].add(o["hash"])
        agg["events"] += o["events"]
        agg["simtime"] += o["simtime"]
        if o.get("sample") is not None and len(agg["samples"]) < 3 and o["nontrivial"]:
            agg["samples"].append(o["sample"])

    def loop(k):
        w = Worker(stage, hashseed_for(k), scratch)
        w2 = None
        while not stop.is_set():
            with lock:
                i = nxt[0]
                if i >= runs + len(corpus) or time.time() > deadline:
                    break
                nxt[0] += 1
            if i < len(corpus):
                scn = dict(corpus[i], hashseed=w.hashseed)
                o = w.call(cmd="run", scn=scn, timeout=META.get("timeout", 60), want_choices=True)
                o["scn"] = scn
                s = scn.get("seed", 0)
            else:
                s = subseed(SEED, ID, i - len(corpus))
                o = w.call(cmd="gen", seed=s, tier=TIER, timeout=META.get("timeout", 60))
            if o.get("gap"):
                with lock:
                    agg["gaps"][o["gap"][:80]] = agg["gaps"].get(o["gap"][:80], 0) + 1
                continue
            if o.get("harness_error"):
                with lock:
                    agg["herr"].append((s, o["harness_error"]))
                    if len(agg["herr"]) > 20:
                        stop.set()
                continue
            if o.get("violation"):
                with lock:
                    found.append((i, o, w.hashseed))
                stop.set()
                continue
            with lock:
                absorb(o)
            if i >= len(corpus) and i % META.get("recheck_every", 40) == 3:
                # same seed, another process, another hash seed: the event log must be the same
                w2 = w2 or Worker(stage, hashseed_for(k + 1000), scratch)
                o2 = w2.call(cmd="gen", seed=s, tier=TIER, timeout=META.get("timeout", 60))
                with lock:
                    agg["recheck"] += 1
                    if o2.get("hash") != o["hash"]:
                        if o2.get("violation"):
                            found.append((i, o2, w2.hashseed))
                            stop.set()
                        else:
                            agg["mismatch"].append(s)
        w.stop()
        if w2:
            w2.stop()

    ts = [threading.Thread(target=loop, args=(k,)) for k in range(NW)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    explore_s = time.time() - t_start

    status, replay_path, vio = 0, None, None
    found.sort(key=lambda x: x[0])
    unreplayable = 0
    for i, o, hs in found[:3]:
        scn = dict(o["scn"], choices=o["choices"], hashseed=hs)
        again = run_scn(stage, scratch, scn)
        if not again.get("violation") or again["violation"]["cls"] != o["violation"]["cls"]:
            # the recorded choices do not reproduce it; try the seed itself
            scn = dict(o["scn"], hashseed=hs)
            again = run_scn(stage, scratch, scn)
        if not again.get("violation") or again["violation"]["cls"] != o["violation"]["cls"]:
            unreplayable += 1
            print(f"note: a violation of seed {o['scn']['seed']} did not replay: {o['violation']}", file=sys.stderr)
            continue
        best, bout, tried = minimise(stage, scratch, scn, again, META.get("shrink_s", 40))
        fin = run_scn(stage, scratch, dict(best, keep_log=True))
        if not fin.get("violation"):
            best, fin = scn, run_scn(stage, scratch, dict(scn, keep_log=True))
        vio = fin["violation"] if fin.get("violation") else again["violation"]
        d = VERIF / "replays"
        d.mkdir(exist_ok=True)
        replay_path = d / f"{ID}-{o['scn']['seed']}.json"
        json.dump(dict(property=ID, violation=vio, seed=o["scn"]["seed"], verif_seed=SEED, event_hash=fin.get("hash"),
                       minimised_from=dict(choices=len(o["choices"]), tried=tried),
                       scenario=best, trace=fin.get("tail", [])[-400:],
                       how=f"python3 sim/check.py {ID} --replay {replay_path}"),
                  open(replay_path, "w"), indent=1)
        status = 1
        break

    # recorded findings: the specific histories listed in known_findings.json
    kf = []
    for k in known:
        o = run_scn(stage, scratch, dict(k["scenario"], hashseed=0, strict=True))
        if o.get("violation") and o["violation"]["cls"] == k["violation_class"]:
            kf.append(k)
            print(f"KNOWN-FINDING: property={ID} {k['what']}")
        elif o.get("violation"):
            d = VERIF / "replays"
            d.mkdir(exist_ok=True)
            replay_path = d / f"{ID}-known-{k['id']}.json"
            vio = o["violation"]
            json.dump(dict(property=ID, violation=vio, event_hash=o["hash"], scenario=dict(k["scenario"], hashseed=0, strict=True)), open(replay_path, "w"), indent=1)
            status = 1

    if agg["herr"] and status == 0 and (agg["done"] == 0 or len(agg["herr"]) > max(3, agg["done"] // 50)):
        status = 2
    gaps = sum(agg["gaps"].values())
    if status == 0 and gaps > max(20, agg["done"]):
        status = 2
        print(f"no answer: {gaps} runs met something the stand-ins do not model: {agg['gaps']}", file=sys.stderr)
    for s, e in agg["herr"][:2]:
        print(f"harness error (seed {s}): {e}", file=sys.stderr)
    if agg["mismatch"]:
        print(f"note: {len(agg['mismatch'])} of {agg['recheck']} re-run seeds gave a different event log", file=sys.stderr)

    hrs = max(explore_s, 1e-6) / 3600
    ev = dict(
        property=ID, tier=TIER, seed=SEED, level=META["level"],
        coverage=dict(
            evaluations=agg["done"] + len(found), distinct_nontrivial=len(agg["ntset"]), rule=META["rule"],
            samples=agg["samples"] or [None],
            simulated_runs=agg["done"] + len(found), seeds_per_hour=round(agg["done"] / hrs), events=agg["events"],
            simulated_steps=agg["simtime"],
            distinct_event_logs=len(agg["hashes"]), distinct_states=len(agg["states"]), state_measure=META["state_measure"],
            faults_fired=dict(sorted(agg["faults"].items())), probes=dict(sorted(agg["probes"].items())),
            determinism_reruns=agg["recheck"], determinism_mismatches=len(agg["mismatch"]),
            harness_errors=len(agg["herr"]), undecided_runs=dict(sorted(agg["gaps"].items())), regression_scenarios=len(corpus), known_findings_confirmed=[k["id"] for k in kf],
            workers=NW, build_s=round(build_s, 1), real_code=META["real"], stubs=META["stub"],
            first_run_seed=subseed(SEED, ID, 0), source=sha,
        ),
        assumptions=META["assumptions"],
        wall_s=round(time.time() - T0, 2),
        violations=1 if status == 1 else 0,
    )
    (VERIF / "evidence").mkdir(exist_ok=True)
    json.dump(ev, open(VERIF / "evidence" / f"{ID}.json", "w"), indent=1)
    c = ev["coverage"]
    print(f"{ID} {TIER} seed={SEED}: {c['evaluations']} runs ({c['seeds_per_hour']}/h), {c['distinct_nontrivial']} distinct non-trivial, "
          f"{c['distinct_states']} states, {sum(agg['faults'].values())} faults, build {build_s:.1f}s, total {ev['wall_s']}s")
    if status == 1:
        print(f"{vio['cls']}: {vio['msg']}")
        print(f"VIOLATION property={ID} replay={replay_path}")
    return status


if __name__ == "__main__":
    sys.exit(main())
