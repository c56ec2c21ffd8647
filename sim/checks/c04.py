"""C04: macro folder lookups are exact, never partial, under storage faults.

A run builds 1-3 folders of macro files in scratch storage and performs a history of lookups through
real FolderMacroLoader objects. Through the storage seam, chosen operations of a lookup fail, reads come
back short, directories list in a seeded order, and another process renames, replaces, half-writes or
removes files at the n-th storage operation of a lookup. Between lookups files change too. Some histories
end with concurrent lookups from several threads under the baton scheduler.

Reference: a dict of paths per folder. Each lookup's allowed outcomes follow from what the named files
contained at some moment during that lookup.
"""
import json, os, pathlib, shutil
import common, sched, storage
from common import short

NAMES = ["m", "mac", "m1", "security_content_ctime", "M", "m*", "m-x", "%a", "été", "ma*", "*", "m[1]", "m?", "a.b"]


def preload():
    global macros, FolderMacroLoader, MacroDefinition
    sched.install_locks()
    from spl_transpiler import macros
    from spl_transpiler.macros import FolderMacroLoader, MacroDefinition


def content(rng, tag):
    """[text, definition or None]"""
    k = rng.random()
    d = dict(definition=f"index=idx_{tag}" + rng.choice(["", " | stats count", " é\n| head 3", " " + "x" * rng.choice([10, 200, 9000])]))
    if rng.random() < .5:
        d["arguments"] = [f"a{i}" for i in range(rng.randint(0, 3))]
    if rng.random() < .2:
        d["description"] = "extra"
    text = json.dumps(d, ensure_ascii=rng.random() < .5, indent=rng.choice([None, 2]))
    if k < .75:
        return [text, dict(arguments=d.get("arguments", []), definition=d["definition"])]
    if k < .86:
        n = rng.randint(0, max(0, len(text) - 2))
        return [text[:n], None]  # half-written
    if k < .93:
        # a byte of the definition went bad: no longer text
        n = text.index("index=") + rng.randint(0, 6)
        return [text[:n] + rng.choice(["\udcff", "\udcc3", "\udc80"]) + text[n + rng.choice([0, 1]):], None]
    return [rng.choice(['{"arguments": []}', '[]', '"x"', 'null', '{"definition": 3}', '{"definition": null}', '{"arguments": 5, "definition": "x"}', '{} x', '\x00']), None]


def generate(rng, tier):
    nf = rng.randint(1, 3)
    names = rng.sample(NAMES, rng.randint(2, 5))
    suffix = rng.choice([".json", ".json", ".json", ".mac", ".x.json"])
    tag = [0]

    def c():
        tag[0] += 1
        return content(rng, tag[0])

    dirs = ["", "a", "b", "a/deep", "a/deep/er", ".hidden", "é"]
    folders = []
    for _ in range(nf):
        files = {}
        for _ in range(rng.randint(1, 7)):
            d = rng.choice(dirs)
            n = rng.choice(names)
            f = n + rng.choice([suffix] * 8 + [".txt", "", suffix + ".bak", suffix.upper()])
            files[(d + "/" if d else "") + f] = c()
        extra = [rng.choice(dirs[1:]) for _ in range(rng.randint(0, 3))]
        # links back to a folder that contains them: no further files
        links = [rng.choice([["again", "."], ["a/up", ".."], ["a/deep/top", "../.."]])] if rng.random() < .15 else []
        folders.append(dict(files=files, dirs=extra, links=links))
    if rng.random() < .12:
        folders[rng.randrange(nf)]["absent"] = True
    nl = rng.randint(1, 4)
    loaders = [rng.randrange(nf) for _ in range(nl)]
    ops = []
    for _ in range(rng.randint(3, 12 if tier == "quick" else 30)):
        k = rng.random()
        if k < .72:
            l, n = rng.randrange(nl), rng.choice(names)
            if rng.random() < .06:
                n = rng.choice([" " + n, n + " ", n + "\n", n + ".", n[:-1], n + "x"])  # no file's name
            faults, acts = [], []
            if rng.random() < .45:
                for _ in range(rng.randint(1, 2)):
                    cls = rng.choice(["open", "stat", "scan", "readdir", "read", "read"])
                    err = dict(open=["EIO", "EACCES", "EMFILE", "ENFILE", "ETIMEDOUT"], stat=["EIO", "ENOMEM", "ETIMEDOUT"], scan=["EIO", "EMFILE", "ENOMEM", "ETIMEDOUT", "ESTALE"], readdir=["EIO", "ESTALE"], read=["EIO", "ENOMEM", "ETIMEDOUT", "ESTALE"])[cls]
                    faults.append([cls, rng.choice([0, 0, 1, 1, 2, 3, 5, 8]), rng.choice([1, 1, 2, 1000]), rng.choice(err)])
            if rng.random() < .3:
                faults.append(["short", rng.randint(0, 2), rng.choice([1, 3, 1000]), rng.choice([1, 3, 16, 300])])
            if rng.random() < .3:
                for _ in range(rng.randint(1, 3)):
                    paths = sorted(folders[loaders[l]]["files"])
                    same = [p for p in paths if p.rsplit("/", 1)[-1] == n + suffix] or paths
                    p = rng.choice(same if rng.random() < .8 else paths)
                    kind = rng.choice(["replace", "unlink", "tear", "move", "create"])
                    d = rng.choice(dirs)
                    acts.append([kind, rng.choice(["any", "any", "open", "read", "stat", "scan"]), rng.choice([0, 1, 2, 3, 5, 8, 13, 20]), p,
                                 (d + "/" if d else "") + n + suffix, c(), rng.random()])
            ops.append(["get", l, n, faults, acts])
        elif k < .92:
            f = rng.randrange(nf)
            d = rng.choice(dirs)
            p = (d + "/" if d else "") + rng.choice(names) + suffix
            if rng.random() < .5 and folders[f]["files"]:
                p = rng.choice(sorted(folders[f]["files"]))
            ops.append(["put", f, p, c()] if rng.random() < .65 else ["del", f, p])
        elif k < .96:
            ops.append(["renew", rng.randrange(nl), rng.randrange(nf)])
        else:
            ops.append(["gc", rng.randrange(nl), rng.randrange(nf)])
    if rng.random() < .03:
        # many other lookups in between, through loaders of another folder
        ops.insert(rng.randint(1, len(ops)), ["many", rng.choice([4, 8, 14, 27, 53])])
        gets = [o for o in ops if o[0] == "get"]
        if gets:
            g = rng.choice(gets)
            again = [g[0], g[1], g[2], [], []]
            ops = [again] + ops + [["put", loaders[g[1]], p, c()] for p in sorted(folders[loaders[g[1]]]["files"]) if p.rsplit("/", 1)[-1] == g[2] + suffix] + [again]
    threads = []
    if rng.random() < .3:
        threads = [[[rng.randrange(nl), rng.choice(names)] for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 3))]
    return dict(folders=folders, loaders=loaders, ops=ops, names=names, suffix=suffix, threads=threads, dirseed=rng.randrange(1, 1 << 32), preempt=rng.choice([.1, .4, .8]), randseed=rng.randrange(1 << 40))


BASE = [""]


def raw(text):
    return text.encode("utf-8", "surrogateescape")


def get(loader, name):
    try:
        v = loader[name]
    except Exception as e:
        return ["err", type(e).__name__, str(e).replace(BASE[0], "~"), isinstance(e, KeyError), isinstance(e, OSError)]
    try:
        v = MacroDefinition.model_validate(v)
        return ["ok", dict(arguments=list(v.arguments), definition=v.definition)]
    except Exception as e:
        return ["bad", repr(v)[:200]]


class Folder:
    def __init__(self, root, spec, suffix):
        self.root, self.suffix = root, suffix
        self.files = {}
        if spec.get("absent"):
            return
        os.makedirs(root)
        for d in spec["dirs"]:
            os.makedirs(f"{root}/{d}", exist_ok=True)
        for p, c in spec["files"].items():
            self.put(p, c)
        for p, to in spec.get("links", []):
            os.makedirs(os.path.dirname(f"{root}/{p}"), exist_ok=True)
            if not os.path.lexists(f"{root}/{p}"):
                os.symlink(to, f"{root}/{p}")

    def put(self, p, c):
        full = f"{self.root}/{p}"
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(c[0])
        self.files[p] = c

    def delete(self, p):
        if p in self.files:
            os.unlink(f"{self.root}/{p}")
            del self.files[p]

    def named(self, name):
        return {p: c for p, c in self.files.items() if p.rsplit("/", 1)[-1] == name + self.suffix}


def run(scn, ctx):
    common.seed_rust(scn["randseed"])
    base = os.path.join(os.environ["VERIF_SCRATCH"], f"c04-{os.getpid()}")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    try:
        body(scn, ctx, base)
    finally:
        storage.arm(False)
        shutil.rmtree(base, ignore_errors=True)


def body(scn, ctx, base):
    BASE[0] = base
    sfx = scn["suffix"]
    folders = [Folder(f"{base}/f{i}", s, sfx) for i, s in enumerate(scn["folders"])]
    os.makedirs(f"{base}/spare")
    where = list(scn["loaders"])

    def mk(f):
        return FolderMacroLoader(pathlib.Path(folders[f].root)) if sfx == ".json" else FolderMacroLoader(pathlib.Path(folders[f].root), suffix=sfx)

    loaders = [mk(f) for f in where]
    memo = [{} for _ in loaders]
    nok = nfault = 0
    spare = 0

    def judge(l, name, o, alive, seen, everpaths, disturbed, what):
        """alive: {path: content} present, unchanged in place or by replacement, throughout; seen: every content that
        a file of that name had at some moment; everpaths: how many such paths there were at some moment."""
        nonlocal nok
        if name in memo[l]:
            if o != ["ok", memo[l][name]]:
                ctx.fail("lookup-not-stable", f"{what}: {short(o)}, but this loader answered {short(memo[l][name])} before")
            return
        if o[0] == "bad":
            ctx.fail("not-a-definition", f"{what}: returned {o[1]}")
        if o[0] == "ok":
            if o[1] not in [c[1] for c in seen if c[1] is not None]:
                ctx.fail("wrong-definition", f"{what}: {short(o[1])}, which is not the definition stored under that name: {short([c[0] for c in seen])}")
            if len(alive) > 1 and not disturbed:
                ctx.fail("ambiguity-ignored", f"{what}: {short(o[1])} although several files have that name: {sorted(alive)}")
            memo[l][name] = o[1]
            nok += 1
            return
        if o[3]:
            if alive:
                ctx.fail("present-reported-absent", f"{what}: {short(o[1:3])} although {sorted(alive)[0]} was there all the time")
            return
        if not seen and not disturbed:
            ctx.fail("absent-not-reported", f"{what}: {short(o[1:3])} although no such file exists; expected a KeyError")
        if not disturbed and len(alive) == 1 and list(alive.values())[0][1] is not None:
            ctx.fail("lookup-fails", f"{what}: {short(o[1:3])} although {sorted(alive)[0]} is complete and the storage is healthy")

    for i, op in enumerate(scn["ops"]):
        if op[0] == "put":
            folders[op[1]].put(op[2], op[3])
            ctx.log(i, op[0], op[1], op[2])
        elif op[0] == "del":
            folders[op[1]].delete(op[2])
            ctx.log(i, op[0], op[1], op[2])
        elif op[0] == "many":
            bulk = f"{base}/bulk"
            os.makedirs(bulk, exist_ok=True)
            for j in range(10):
                with open(f"{bulk}/bulk{j}{sfx}", "w") as f:
                    f.write('{"definition": "x=%d"}' % j)
            for _ in range(op[1]):
                ld = FolderMacroLoader(pathlib.Path(bulk)) if sfx == ".json" else FolderMacroLoader(pathlib.Path(bulk), suffix=sfx)
                for j in range(10):
                    o = get(ld, f"bulk{j}")
                    if o != ["ok", dict(arguments=[], definition=f"x={j}")]:
                        ctx.fail("wrong-definition", f"lookup of 'bulk{j}' in a healthy folder of ten macros gives {short(o)}")
            ctx.fault("many_lookups", op[1] * 10)
            ctx.log(i, *op)
        elif op[0] in ("renew", "gc"):
            l, f = op[1], op[2]
            if op[0] == "gc":
                import gc
                loaders[l] = None
                gc.collect()
            where[l] = f
            loaders[l] = mk(f)
            memo[l] = {}
            ctx.log(i, *op)
        else:
            _, l, name, faults, acts = op
            F = folders[where[l]]
            before = F.named(name)
            storage.begin(base, scn["dirseed"] + i)
            planned = []
            for f in faults:
                if f[0] == "short":
                    planned.append(("short_read", storage.short(f[1], f[2], f[3]), None))
                else:
                    planned.append((f"{f[0]}_{f[3]}", storage.fail(f[0], f[1], f[2], f[3]), None))
            for (kind, cls, nth, p, p2, c, frac) in acts:
                full, full2 = f"{F.root}/{p}", f"{F.root}/{p2}"
                if kind == "replace":
                    # another process replaces the file atomically
                    spare += 1
                    sp = f"{base}/spare/{spare}"
                    with open(sp, "w", encoding="utf-8", errors="surrogateescape") as fh:
                        fh.write(c[0])
                    planned.append(("replace", storage.act(cls, nth, storage.RENAME, sp, full), ("put", p, c)))
                elif kind == "create":
                    spare += 1
                    sp = f"{base}/spare/{spare}"
                    with open(sp, "w", encoding="utf-8", errors="surrogateescape") as fh:
                        fh.write(c[0])
                    planned.append(("create", storage.act(cls, nth, storage.RENAME, sp, full2), ("put", p2, c)))
                elif kind == "unlink":
                    planned.append(("unlink", storage.act(cls, nth, storage.UNLINK, full), ("del", p)))
                elif kind == "move":
                    planned.append(("move", storage.act(cls, nth, storage.RENAME, full, full2), ("move", p, p2)))
                elif kind == "tear" and cls != "read":
                    # another process is half way through rewriting the file in place
                    t = raw(c[0])[:max(0, int(frac * (len(c[0]) - 2)))]
                    if c[1] is None:
                        t = b"{"
                    planned.append(("tear", storage.act(cls, nth, storage.WRITE, full, None, t), ("put", p, [None, None])))
            storage.arm(True)
            o = get(loaders[l], name)
            storage.arm(False)
            nops = storage.ops()
            # what was there, and what changed while the lookup ran: re-read the real folder afterwards
            hits = [(n, eff) for n, pid, eff in planned if storage.fired(pid)]
            for n, eff in hits:
                ctx.fault(n)
                nfault += 1
            after = {}
            for d, ds, fs in os.walk(F.root):
                for fn in fs:
                    rel = os.path.relpath(os.path.join(d, fn), F.root)
                    with open(os.path.join(d, fn), "rb") as fh:
                        data = fh.read()
                    after[rel] = data.decode("utf-8", "surrogateescape")
            effs = [e for _, e in hits if e]
            contents = {}
            for c in list(F.files.values()) + [e[2] for e in effs if e[0] == "put"]:
                if c[0] is not None:
                    contents[c[0]] = c
            newfiles = {p: contents.get(t, [t, None]) for p, t in after.items()}
            touched = set()
            for e in effs:
                touched.add(e[1])
                if e[0] == "move":
                    touched.add(e[2])
            nm = name + sfx
            base_named = lambda p: p.rsplit("/", 1)[-1] == nm
            gone = {e[1] for e in effs if e[0] in ("del", "move")}
            alive = {p: c for p, c in before.items() if p in newfiles and p not in gone}
            everpaths = set(before) | {p for p in touched if base_named(p)}
            seen = list(before.values()) + [e[2] for e in effs if e[0] == "put" and base_named(e[1])]
            for e in effs:
                if e[0] == "move" and (base_named(e[2]) or base_named(e[1])):
                    seen += [c for c in ([F.files.get(e[1])] + [x[2] for x in effs if x[0] == "put"]) if c]
            F.files = newfiles
            disturbed = bool(hits) and not all(n == "short_read" for n, _ in hits)
            ctx.log(i, "get", l, name, o, [n for n, _ in hits], nops)
            ctx.state(nops, [n for n, _ in hits], o[0] if o[0] == "ok" else o[1])
            what = f"lookup of {name!r} in a folder with {sorted(before) or 'no such file'} (faults {[n for n, _ in hits]})"
            judge(l, name, o, alive, seen, everpaths, disturbed, what)
            # the storage is healthy again: the answer is the plain one
            if hits:
                now = F.named(name)
                o2 = get(loaders[l], name)
                ctx.log(i, "again", o2)
                judge(l, name, o2, now, list(now.values()), set(now), False, f"lookup of {name!r} repeated on healthy storage with {sorted(now)} after {short(o, 120)} (faults were {[n for n, _ in hits]})")
    if scn["threads"]:
        S = sched.Scheduler(ctx, preempt=scn["preempt"], files=("/spl_transpiler/",))
        for ti, ops in enumerate(scn["threads"]):
            def fn(ops=ops):
                return [(l, n, get(loaders[l], n)) for l, n in ops]
            S.spawn(fn, f"t{ti}")
        res = S.run()
        ctx.fault("preemption", S.switches)
        for ti, (st, val) in enumerate(res):
            if st != "ok":
                ctx.fail("thread-died", f"{val!r}")
            for l, n, o in val:
                now = folders[where[l]].named(n)
                ctx.log("thread", ti, l, n, o)
                judge(l, n, o, now, list(now.values()), set(now), False, f"lookup of {n!r} in thread {ti} of {len(res)} with {sorted(now)}")
    ctx.probe("lookups_ok", nok)
    ctx.nontrivial = nok > 0 and nfault > 0
    ctx.sample = dict(folders=[sorted(f["files"]) for f in scn["folders"]], ops=scn["ops"][:3])
