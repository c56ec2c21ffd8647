"""A worker process: imports the code under test once, then forks one pristine child per run.

Protocol: JSON lines on fd 3 (in) and fd 4 (out). One run = one forked child = one seed; the child
starts from the same image every time, so a run is a function of its scenario and of the code.
"""
import importlib, json, mmap, os, random, select, signal, struct, sys, time, traceback

from core import Choices, Ctx, HarnessError, Violation, subseed

CHECK = sys.argv[1]
fin = os.fdopen(int(sys.argv[2]), "r")
fout = os.fdopen(int(sys.argv[3]), "w")
devnull = os.open(os.devnull, os.O_RDWR)
os.dup2(devnull, 0)

mod = importlib.import_module(f"checks.{CHECK.lower()}")
mod.preload()
import gc
gc.collect()
gc.freeze()

SHM = mmap.mmap(-1, 1 << 20)  # journal of the schedule choices of the running child, for hangs


class JournalChoices(Choices):
    def pick(self, n, bias=None):
        v = super().pick(n, bias)
        k = len(self.log)
        if n > 1 and k < 200000:
            SHM[4 + k - 1] = min(v, 255)
            SHM[0:4] = struct.pack("<I", k)
        return v


def child(scn, wfd):
    ctx = Ctx(scn)
    ctx.choices.__class__ = JournalChoices
    out = {}
    try:
        try:
            mod.run(scn, ctx)
        except Violation as v:
            out["violation"] = dict(cls=v.cls, msg=v.msg)
    except HarnessError as e:
        if str(e).startswith("stub:"):
            out["gap"] = str(e)
        else:
            out["harness_error"] = f"{e}\n{traceback.format_exc()[-1500:]}"
    except BaseException as e:  # a bug of the harness, or of a stand-in
        out["harness_error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}"
    out.update(ctx.result())
    data = json.dumps(out, default=repr).encode()
    os.write(wfd, struct.pack("<Q", len(data)))
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os._exit(0)


def run(scn, timeout):
    SHM[0:4] = b"\0\0\0\0"
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        try:
            child(scn, w)
        finally:
            os._exit(99)
    os.close(w)
    deadline = time.monotonic() + timeout
    buf = b""
    hung = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hung = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 1.0))
        if rl:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
            if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<Q", buf[:8])[0]:
                break
    os.close(r)
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)  # anything the run left behind
    except (ProcessLookupError, PermissionError):
        pass
    if len(buf) >= 8 and len(buf) >= 8 + struct.unpack("<Q", buf[:8])[0]:
        return json.loads(buf[8:])
    k = struct.unpack("<I", SHM[0:4])[0]
    ch = list(SHM[4:4 + k])
    base = dict(hash="", events=0, faults={}, probes={}, states=[], choices=ch, sample=None, nontrivial=None, simtime=0, tail=[])
    if hung:
        base["violation"] = dict(cls="no-progress", msg=f"the run did not finish within {timeout}s: some call never returns")
    elif os.WIFSIGNALED(st):
        base["violation"] = dict(cls="process-crash", msg=f"the process died with signal {os.WTERMSIG(st)}")
    else:
        base["harness_error"] = f"child ended with status {st} and no result"
    return base


for line in fin:
    req = json.loads(line)
    if req["cmd"] == "quit":
        break
    if req["cmd"] == "gen":
        s = req["seed"]
        scn = mod.generate(random.Random(s), req["tier"])
        scn["seed"] = s
        scn["tier"] = req["tier"]
    else:
        scn = req["scn"]
    t = time.monotonic()
    try:
        out = run(scn, req.get("timeout", 60))
    except Exception as e:
        out = dict(harness_error=f"zygote: {type(e).__name__}: {e}", violation=None)
    out["wall"] = time.monotonic() - t
    if req["cmd"] == "gen" and (out.get("violation") or out.get("harness_error") or req.get("want_scn")):
        out["scn"] = scn
    if not req.get("want_choices") and not out.get("violation"):
        out.pop("choices", None)
        out.pop("tail", None)
    fout.write(json.dumps(out) + "\n")
    fout.flush()
