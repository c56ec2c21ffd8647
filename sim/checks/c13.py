"""C13: the live translator.

A run is one session of the interactive translator on a simulated event loop: bursts of keystrokes and pasted
texts, switch toggles (keys and clicks), copies, and seeded delivery - at every step the simulator chooses
which widget's task handles its next message. The clipboard fails on chosen calls. Each time the queues have
run dry the screen is compared with the translation of the text and switches of that moment.
"""
import ast
import common, corpus, splgen
from common import short
from core import HarnessError


def preload():
    global T, st, live, clip, seam
    import textual._core as T
    import pyperclip
    import spl_transpiler as st
    from spl_transpiler import live_translator as live
    clip = pyperclip.SIM
    seam = common.BlackSeam()


BITS = ["index=main x=1", "index=a | eval y=x+1.5", "index=a | stats count by y", "index=a | where", "", "x=1.25", "index=a [/b]", "index=a | rex field=y \"[/a](?<u>.)\"", "index=a msg=\"[red]x[/]\"",
        "index=a | nosuchcommand x", "((", "index=a | eval z=if(x > 0.5, \"p\", \"q\")", "index=a | regex y=\"^[/x]\"", "search [/", "index=a | head 5 | table x y", "index=a msg=\"a\\\\\"", "[", "[[]]",
        "index=a | dedup x", "index=a | join y [search index=b]", "`m(1)`", "index=\"caf\u00e9\"", "index=a | bin span=5m _time", "index=a | timechart count", "index=a | eval s=tostring(x, \"commas\"), t=-1.5",
        "index=a | mvexpand y", "index=a | eval a=b.c", "index=a | where x=0.0 | sort -x | head 3", "index=a msg=\"[/b]\" ", "index=a | rename x as \"[/y]\"", "index=a | fillnull value=0.5 x", "index=a | sort \"[/x]\"", "index=a | sort \"[red]\" | head 2", "index=a | eval z=nosuch(\"[/b]\")"]


def generate(rng, tier):
    qs = []
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        qs.append(splgen.relative(rng, rng.choice(qs)) if qs and rng.random() < .35 else rng.choice(BITS) if k < .5 else splgen.query(rng) if k < .8 and hasattr(splgen, "query") else rng.choice(corpus_queries(rng)))
    ops = []
    for _ in range(rng.randint(2, 14 if tier == "quick" else 40)):
        k = rng.random()
        if k < .4:
            ops.append(["paste", rng.choice(qs)])
            if rng.random() < .12:
                # nearly the same text again
                ops += [["deliver", 20], ["paste", splgen.relative(rng, ops[-1][1])]]
        elif k < .5:
            ops.append(["type", rng.choice(qs)[:8] if rng.random() < .5 else rng.choice(["|", " ", "x=1", "[/", "\"", ")", " | head 2"])])
        elif k < .57:
            ops.append(["erase", rng.randint(1, 12)])
        elif k < .75:
            ops.append(["switch", rng.choice(["use_runtime", "add_imports"]), rng.choice(["key", "click"])])
        elif k < .85:
            ops.append(["copy", rng.choice([None, None, None, "PyperclipException", "FileNotFoundError"])])
        elif k < .9:
            ops.append(["drain"])
        ops.append(["deliver", rng.choice([0, 0, 1, 2, 3, 5, 10])])
    return dict(ops=ops, mounted=rng.random() < .5, randseed=rng.randrange(1 << 40))


def corpus_queries(rng):
    qs = corpus.QUERIES if hasattr(corpus, "QUERIES") else BITS
    return [rng.choice(qs) if isinstance(qs[0], str) else rng.choice(qs)[0]]


def translation(text, runtime):
    try:
        a = st.parse(text)
    except BaseException as e:
        return ["err", "parse", type(e).__name__]
    try:
        return ["ok", st.render_pyspark(a, allow_runtime=runtime, format_code=True)]
    except BaseException as e:
        return ["err", "render", type(e).__name__]


def run(scn, ctx):
    import pyperclip
    common.seed_rust(scn["randseed"])
    T.SIM.reset()
    clip.content, clip.copies = None, 0
    app = T.start(live.SPLApp())
    ctl = dict(fail=None)

    def hook():
        if ctl["fail"]:
            e = dict(PyperclipException=pyperclip.PyperclipException("no clipboard"), FileNotFoundError=FileNotFoundError(2, "xclip"))[ctl["fail"]]
            ctx.fault("clipboard_" + ctl["fail"])
            ctl["struck"] = True
            raise e
    clip.hook = hook
    areas = [w for w in app._walk() if type(w).__name__ == "TextArea"]
    ed = app.query_exactly_one("#spl_code")
    shown = app.query_exactly_one("#py_code")
    sw = {n: app.query_exactly_one("#" + n) for n in ("use_runtime", "add_imports")}
    if scn["mounted"]:
        ed.post_message(type(ed).Changed(ed))
    ntouched = 0
    n = dict(settled=0, valid=0, parse_error=0, render_error=0, copies=0)

    def pick(k):
        return ctx.choices.pick(k)

    def deliver(limit):
        did = 0
        while did < limit:
            try:
                if not T.step(pick):
                    return did
            except HarnessError:
                raise
            except BaseException as e:
                if ctl.get("struck"):
                    pass
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = next((f"{f.name}" for f in reversed(tb) if "live_translator" in f.filename), "?")
                ctx.fail("died", f"the translator dies of {type(e).__name__}: {short(e, 150)} in {where}, with the text {ed.text!r}" + (" after the clipboard failed" if ctl.get("struck") else ""))
            did += 1
            if did > 5000:
                ctx.fail("never-settles", f"5000 messages handled without settling, with the text {ed.text!r}")
        return did

    def settle():
        deliver(10**9)
        check()

    def check():
        n["settled"] += 1
        text, runtime, imports = ed.text, sw["use_runtime"].value, sw["add_imports"].value
        want = translation(text, runtime)
        marked = [w for w in app._walk() if w.has_class("error")]
        log = [str(x) for w in app._walk() if type(w).__name__ == "RichLog" for x in w.lines]
        ctx.log("settled", text, runtime, imports, want[0], sorted(str(w.id) for w in marked), shown.text)
        what = f"settled on the text {text!r} (runtime {'on' if runtime else 'off'}, imports {'on' if imports else 'off'})"
        if want[0] == "err":
            n[want[1] + "_error"] += 1
            if not marked:
                ctx.fail("error-not-marked", f"{what}: it cannot be {'parsed' if want[1] == 'parse' else 'translated'}, yet no error is marked; it shows {short(shown.text, 150)!r}")
            return
        n["valid"] += 1
        if marked:
            ctx.fail("stale-error", f"{what}: an error is marked on {[w.id for w in marked]} although it translates")
        if any(w in l.lower() for l in log for w in ("fail", "error")):
            ctx.fail("stale-error", f"{what}: the log still reports {log}")
        got = shown.text
        if not got.endswith(want[1]):
            ctx.fail("wrong-code", f"{what}: it shows {short(got)!r}, the translation is {short(want[1])!r}")
        head = got[:len(got) - len(want[1])]
        if head and not head.endswith("\n"):
            ctx.fail("wrong-code", f"{what}: it shows {short(got)!r}, the translation is {short(want[1])!r}")
        try:
            stm = ast.parse(head).body
            names = {(a.asname or a.name) for s in stm for a in s.names}
        except Exception:
            ctx.fail("wrong-code", f"{what}: before the translation it shows {short(head)!r}")
        need = ({"F"} | ({"commands", "functions"} if runtime else set())) if imports else set()
        if names != need:
            ctx.fail("wrong-imports", f"{what}: it imports {sorted(names)}, expected {sorted(need)}")

    for op in scn["ops"]:
        if op[0] == "paste":
            ntouched += ed.text != op[1]
            ed._edit(op[1])
        elif op[0] == "type":
            for c in op[1]:
                ed._edit(ed.text + c)
                if pick(3) == 2:
                    deliver(1 + pick(3))
                ntouched += 1
        elif op[0] == "erase":
            for _ in range(op[1]):
                if not ed.text:
                    break
                ed._edit(ed.text[:-1])
                ntouched += 1
                if pick(4) == 3:
                    deliver(1)
        elif op[0] == "switch":
            if op[2] == "click":
                sw[op[1]].toggle()
            else:
                app._press("ctrl+r" if op[1] == "use_runtime" else "ctrl+t")
            ctx.fault("switch_" + op[2])
            ntouched += 1
        elif op[0] == "copy":
            # the copy is handled at a moment of the simulator's choosing, so it is judged when it has happened
            deliver(pick(4))
            seen = len(T.SIM.notifications)
            before = clip.copies
            ctl.update(fail=op[1], struck=False)
            if not app._press("ctrl+s"):
                ctx.fail("not-copied", "no key copies the translation")
            app._queue.rotate(1)  # handled next
            text0 = shown.text
            try:
                app._handle_next()
                while app._queue and isinstance(app._queue[0], T.Callback) and clip.copies == before and not ctl.get("struck"):
                    app._handle_next()
            except HarnessError:
                raise
            except Exception as e:
                if not ctl.get("struck"):
                    ctx.fail("died", f"copying dies of {type(e).__name__}: {short(e, 150)}")
                ctx.fail("died", f"the translator dies of {type(e).__name__} when the clipboard fails while copying, with the text {ed.text!r}")
            struck, ctl["fail"] = ctl["struck"], None
            new = T.SIM.notifications[seen:]
            good = [x for x in new if x[0] == "information"]
            n["copies"] += 1
            ctx.log("copy", clip.content, struck, new)
            if struck:
                if good:
                    ctx.fail("false-success", f"the clipboard failed, yet {good[0][1:]} is announced")
            else:
                if clip.copies == before:
                    ctx.fail("not-copied", f"nothing was copied; announced: {new}")
                if clip.content != text0:
                    ctx.fail("wrong-copy", f"the clipboard holds {short(clip.content)!r}, shown is {short(text0)!r}")
        elif op[0] == "deliver":
            deliver(op[1])
        elif op[0] == "drain" and (ntouched or scn["mounted"]):
            settle()
    if ntouched or scn["mounted"]:
        settle()
    ctx.fault("reordered_delivery", sum(1 for x in ctx.choices.log if x))
    for k, v in n.items():
        ctx.probe(k, v)
    ctx.simtime = T.SIM.handled
    ctx.state(scn["ops"], ctx.choices.log)
    ctx.nontrivial = n["valid"] > 0 and ntouched > 1
    ctx.sample = dict(ops=scn["ops"][:6])
