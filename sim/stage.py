"""Builds the transpiler from /repo's working tree into a stage directory of our own.

Nothing is written in /repo: sources are copied (only when their content changed, so that cargo's
mtime-based freshness is right), and the extension module is built with a target directory under
/verif/.build (git-ignored).
"""
import fcntl, hashlib, os, pathlib, shutil, subprocess, sys, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = VERIF / ".build"
VENV = "/opt/spl-venv/bin/python"
SO = "spl_transpiler.cpython-312-x86_64-linux-gnu.so"


def _env():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/opt/spl-venv/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"),
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="",
        PYO3_PYTHON=VENV, RUSTFLAGS="-Awarnings",
    )
    e.pop("LD_PRELOAD", None)
    return e


def _sync(src: pathlib.Path, dst: pathlib.Path, keep):
    """Mirror src into dst; files whose content is the same keep their mtime."""
    want = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        rel = os.path.relpath(root, src)
        for f in sorted(files):
            if not keep(f):
                continue
            r = os.path.normpath(os.path.join(rel, f))
            want.add(r)
            s, d = src / r, dst / r
            data = s.read_bytes()
            if d.is_file() and d.read_bytes() == data:
                continue
            d.parent.mkdir(parents=True, exist_ok=True)
            d.write_bytes(data)
    for root, _, files in os.walk(dst):
        for f in files:
            r = os.path.normpath(os.path.join(os.path.relpath(root, dst), f))
            if r not in want:
                (dst / r).unlink()


def ensure(log=sys.stderr):
    """Returns (stage_dir, build_seconds, source_hash). stage_dir/py is the PYTHONPATH entry."""
    t0 = time.time()
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / "lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        crate = BUILD / "crate"
        crate.mkdir(exist_ok=True)
        _sync(REPO / "src", crate / "src", lambda f: True)
        for d in (".cargo",):
            if (REPO / d).is_dir():
                _sync(REPO / d, crate / d, lambda f: True)
        lock = REPO / "Cargo.lock"
        if not lock.is_file():
            lock = pathlib.Path("/opt/vp/Cargo.lock")
        if not lock.is_file():
            lock = VERIF / "sim" / "Cargo.lock"
        for name, s in (("Cargo.toml", REPO / "Cargo.toml"), ("Cargo.lock", lock), ("build.rs", REPO / "build.rs"),
                        ("README.md", REPO / "README.md"), ("pyproject.toml", REPO / "pyproject.toml")):
            if s.is_file():
                data = s.read_bytes()
                d = crate / name
                if not (d.is_file() and d.read_bytes() == data):
                    d.write_bytes(data)
        target = BUILD / "target"
        seed = REPO / "target" / "ext"
        if not target.exists() and (seed / "debug").is_dir():
            # dependencies already compiled by the project's own build; cargo checks that they are fresh
            subprocess.run(["cp", "-a", str(seed), str(target)], check=False)
        env = _env()
        env["CARGO_TARGET_DIR"] = str(target)
        r = subprocess.run(["cargo", "build", "--lib", "--offline"], cwd=crate, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:], file=log)
            raise SystemExit("stage: cargo build failed")
        so = target / "debug" / "libspl_transpiler.so"
        h = hashlib.sha256(so.read_bytes())
        py = REPO / "python"
        for root, dirs, files in sorted(os.walk(py)):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                if f.endswith((".so", ".pyc")):
                    continue
                p = pathlib.Path(root) / f
                h.update(str(p.relative_to(py)).encode() + b"\0" + p.read_bytes())
        shim_src = VERIF / "sim" / "shim" / "shim.c"
        h.update(shim_src.read_bytes())
        sha = h.hexdigest()[:16]
        stage = BUILD / "stage" / sha
        if not (stage / "ok").exists():
            shutil.rmtree(stage, ignore_errors=True)
            (stage / "py").mkdir(parents=True)
            _sync(py, stage / "py", lambda f: not f.endswith((".so", ".pyc")))
            shutil.copy(so, stage / "py" / "spl_transpiler" / SO)
            subprocess.run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-o", str(stage / "shim.so"), str(shim_src), "-ldl"],
                           check=True)
            (stage / "ok").touch()
        os.utime(stage)
        old = sorted((BUILD / "stage").iterdir(), key=lambda p: p.stat().st_mtime)
        for p in old[:-6]:
            shutil.rmtree(p, ignore_errors=True)
    return stage, time.time() - t0, sha


if __name__ == "__main__":
    s, t, h = ensure()
    print(f"stage {s} built in {t:.1f}s")
