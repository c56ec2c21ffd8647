#!/usr/bin/env python3
"""Development tool: confirm a planted bug in a scratch copy of /repo (bind-mounted over /repo in a
private user and mount namespace, so that nothing touches the real one) and run its check against it.

plant.py make ID PROPERTY SPEC.json   SPEC: {"edits": [[file, old, new], ...], "needs": ..., "breaks": ...}
plant.py test ID [--fast]             build, stable tests, demo with and without the patch, check
plant.py catch [ID ...]               only run the checks against the planted bugs
"""
import json, os, pathlib, subprocess, sys, time
V = pathlib.Path("/verif")
W = pathlib.Path("/tmp/plant")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def setup():
    W.mkdir(exist_ok=True)
    if not (W / "repo").exists():
        sh(f"cp -a /repo {W}/repo")
    r = sh(f"cd {W}/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq && git checkout -q -- .")
    assert r.returncode == 0, r.stdout


def inns(cmd, timeout=1500):
    return sh(f"unshare -Urm sh -c 'mount --bind {W}/repo /repo && cd /repo && {cmd}'", timeout=timeout)


def make(i, prop, spec):
    setup()
    s = json.load(open(spec))
    for f, old, new in s["edits"]:
        p = W / "repo" / f
        t = p.read_text()
        assert t.count(old) == 1, (f, old, t.count(old))
        p.write_text(t.replace(old, new))
    d = V / "seeded" / i
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(sh(f"cd {W}/repo && git diff").stdout)
    json.dump({"property": prop, "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d / "meta.json", "w"), indent=1)
    sh(f"cd {W}/repo && git checkout -q -- .")


def check(prop, tier="quick"):
    t = time.time()
    r = sh(f"unshare -Urm sh -c 'mount --bind {W}/repo /repo && cd /verif && VERIF_SEED=1 VERIF_TIER={tier} python3 sim/check.py {prop}'")
    return r, time.time() - t


def main():
    if sys.argv[1] == "make":
        return make(*sys.argv[2:5])
    ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(p.name for p in (V / "seeded").iterdir())
    setup()
    for i in ids:
        d = V / "seeded" / i
        prop = json.load(open(d / "meta.json"))["property"]
        demo = f"/tmp/plant/demo-{i}"
        sh(f"rm -rf {demo} && mkdir -p {demo} && cp -r {d}/. {demo} && rm -f {demo}/*.diff {demo}/meta.json")
        out = []
        if sys.argv[1] == "test":
            r = inns("bash /opt/vp/build.sh")
            assert r.returncode == 0, r.stdout[-2000:]
            r = inns(f"bash {demo}/demo.sh", 300)
            out.append(f"clean demo {'ok' if r.returncode == 0 else 'BAD ' + r.stdout[-1500:]}")
        r = sh(f"cd {W}/repo && git apply {d}/patch.diff")
        assert r.returncode == 0, (i, r.stdout)
        try:
            if sys.argv[1] == "test":
                r = inns("bash /opt/vp/build.sh")
                out.append(f"build {'ok' if r.returncode == 0 else 'BAD ' + r.stdout[-2000:]}")
                if "--fast" not in sys.argv:
                    inns("bash /opt/vp/test.sh /tmp/plant/t.json")
                    base = json.load(open("/opt/vp/BASELINE.json"))
                    got = json.load(open("/tmp/plant/t.json"))
                    stable = base.get("stable") or base.get("passed")
                    bad = [t for t in stable if t not in set(got["passed"])]
                    out.append(f"tests {'ok' if not bad else 'BAD ' + str(bad[:4])}")
                r = inns(f"bash {demo}/demo.sh", 300)
                out.append(f"patched demo {'fails (good): ' + r.stdout.strip()[-150:] if r.returncode else 'BAD: passes'}")
            r, t = check(prop)
            out.append(f"check {prop} exit {r.returncode} {t:.0f}s: " + " / ".join(r.stdout.strip().splitlines()[-2:])[-300:])
        finally:
            sh(f"cd {W}/repo && git checkout -q -- .")
        print(i, *out, sep="\n   ", flush=True)


main()
