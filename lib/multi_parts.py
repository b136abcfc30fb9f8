"""Checks decided by Worlds.tla / Multi.tla / MultiTrace.tla: C15, C20, C21."""
import json, os, random, subprocess
import world_parts as W
from core import CheckError, GOENV

IDS = ["a", "b", "c", "d", "nil", "a::b", "b c", "nil::[]", "in", "]", "::[", "item x", "A", "1", " ", "endworld$$"]
VALS = ["x", "y z", "", "nil::[]", "a::b", "name=q", "] endworld$$", "0", "nil", "none", "null", "-", "true"]
OKCH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.,!@#$%^&*()[]+=~;: ")
IDS, VALS = [x for x in IDS if set(x) <= OKCH], [x for x in VALS if set(x) <= OKCH]
TYPES = ["person", "database", "queue", "blobstore", "browser", "mobile", "server", "device", "code"]
NAMES = ["x", "y", "a b", "c.world", "c", "", "x.y", "A", "x ", "..", ".world", "world", "#1", "~", "-x", "name.world.world", "*", "[x]", "con:1"]


def cmd(k, **kw):
    return dict({"k": k, "id": "", "to": "", "ids": [], "p": [], "lim": 0, "strict": False}, **kw)


def op(e, slot, **kw):
    return dict({"e": e, "slot": slot, "src": 0, "name": "", "at": "", "c": cmd(""), "st": 1}, **kw)


def params(r, rel=False):
    out = {}
    for k in r.sample(["verb", "mechanism", "expanded", "async"] if rel else ["name", "mechanism", "expanded", "type", "external"], r.choice([0, 0, 1, 1, 2, 4])):
        out[k] = r.choice(TYPES) if k == "type" else r.choice(["true", "false"]) if k in ("external", "async") else r.choice(VALS)
    return [[k, v] for k, v in out.items()]


def world_cmd(r, ids, api):
    k = r.choice(["item.create"] * 5 + ["nest"] * 5 + ["rel.create"] * 3 + ["item.set", "item.delete", "rel.set", "rel.delete", "free"])
    x, y = r.choice(ids), r.choice(ids)
    if k in ("nest", "free"):
        return cmd(k, ids=[x], to=y if k == "nest" else "")
    if k.startswith("rel."):
        return cmd(k, id=x, to=y, p=params(r, True) or ([["verb", "v"]] if k == "rel.set" else []) if k != "rel.delete" else [])
    return cmd(k, id=x, p=params(r) or ([["name", "n"]] if k == "item.set" else []) if k != "item.delete" else [])


def random_job(r, i, kinds, nslots, length, disk, label, stores=1, places=1):
    ids = r.sample(IDS, r.choice([3, 5, 7]))
    names = r.sample(NAMES, 4) if disk else r.sample(NAMES, 3)
    kind = [None] * nslots
    ops = []
    while len(ops) < length:
        e = r.choice(kinds)
        s = r.randrange(nslots)
        worlds = [j + 1 for j in range(nslots) if kind[j] == "world"]
        trees = [j + 1 for j in range(nslots) if kind[j] == "tree"]
        if e in ("new", "tnew") and kind[s] and r.random() < 0.6:
            continue
        if e == "new":
            ops.append(op("new", s + 1, name=r.choice(names)))
            kind[s] = "world"
        elif e == "tnew":
            ops.append(op("tnew", s + 1))
            kind[s] = "tree"
        elif e == "read" and worlds:
            ops.append(op("read", s + 1, src=r.choice(worlds)))
            kind[s] = "world"
        elif e == "tworld" and worlds:
            ops.append(op("tworld", s + 1, src=r.choice(worlds)))
            kind[s] = "tree"
        elif e == "tread" and trees:
            ops.append(op("tread", s + 1, src=r.choice(trees), at=r.choice(ids + [""] * 4)))
            kind[s] = "tree"
        elif e in ("app", "save") and worlds:
            ops.append(op(e, r.choice(worlds), st=r.randint(1, stores)))
        elif e == "place":
            ops.append(op("place", 1, src=r.randint(1, places), st=r.randint(1, stores)))
        elif e in ("undo", "redo") and worlds:
            ops.append(op(e, r.choice(worlds)))
        elif e == "load":
            ops.append(op("load", s + 1, name=r.choice(names), st=r.randint(1, stores)))
            if any(o["e"] == "save" for o in ops):
                kind[s] = "world"   # if the name was not saved, the harness leaves out what cannot be done
        elif e == "cmd" and worlds:
            ops.append(op("cmd", r.choice(worlds), c=world_cmd(r, ids, False)))
        elif e == "api" and worlds:
            c = cmd(r.choice(["meta.name", "meta.name", "meta.id", "meta.expanded"]), id=r.choice(names)) if r.random() < 0.25 else world_cmd(r, ids, True)
            ops.append(op("api", r.choice(worlds), c=c))
        elif e == "tadd" and trees:
            ops.append(op("tadd", r.choice(trees), at=r.choice(ids + [""] * 2), c=cmd("", id=r.choice(ids), p=params(r))))
        elif e == "tdel" and trees:
            ops.append(op("tdel", r.choice(trees), at=r.choice(ids + [""] * 4), c=cmd("", id=r.choice(ids))))
        elif e == "probe" and trees:
            ops.append(op("probe", r.choice(trees), c=cmd("", id=r.choice(ids), p=params(r))))
    return {"t": "%s-%d" % (label, i), "job": "multi", "slots": nslots, "disk": disk, "stores": stores, "places": places, "names": names, "uni": ids, "ops": ops}


def rnd(ctx, label, kinds, n, length, nslots=2, disk=False, seed=0, stores=1, places=1):
    r = random.Random(ctx.seed * 1000 + seed)
    p = ctx.path("multi.ndjson")
    with open(p, "w") as f:
        for i in range(n):
            f.write(json.dumps(random_job(r, i, kinds, nslots, length, disk, "random:" + label, stores, places)) + "\n")
    ctx.scripts.append(p)
    ctx.cov["parts"].append("random %s: %d runs of %d steps over %d worlds or trees" % (label, n, length, nslots))


def walk(ctx, name, budget, slots, disk=False, names=(), ids=("a", "b", "c", "d"), length=40, rename="", edges=None, stores=1, places=1):
    edges = edges or ctx.model_check("Multi_" + name, module="Multi", workers=1)
    p = ctx.path("mwalk.ndjson")
    job = {"slots": slots, "disk": disk, "stores": stores, "places": places, "names": list(names), "uni": [dict(kv.split("=", 1) for kv in rename.split(",") if kv).get(x, x) for x in ids]}
    args = ["mwalk", "-in", edges, "-out", p, "-seed", ctx.seed, "-len", length, "-budget", budget, "-profile", json.dumps(job), "-label", "walk:" + name]
    if rename:
        args += ["-rename", rename]
    r = json.loads(ctx.harness(*args))
    ctx.cov["model_edges"] += r["edges"]
    ctx.cov["model_edges_replayed"] += r["covered"]
    ctx.cov["parts"].append("walks over Multi_%s: %d of %d model transitions, %d steps%s" % (name, r["covered"], r["edges"], r["steps"], ", ids " + rename if rename else ""))
    ctx.scripts.append(p)
    return edges


def at_once(ctx, n, length, seed=40):
    """Scripts on worlds of their own, run alone and all at once, in a build with the race detector."""
    ctx.build()
    exe = os.path.join(ctx.dir, "vh-race")
    base = ["go", "build", "-race"] + (["-tags", "verif"] if ctx.hooks else [])
    r = subprocess.run(base + ["-o", exe, "."], cwd=os.path.join(ctx.dir, "harness"), env=dict(os.environ, CGO_ENABLED="1", **GOENV), capture_output=True, text=True)
    race = r.returncode == 0
    if not race:
        exe = ctx.vh
    before = ctx.scripts
    ctx.scripts = []
    for i, m in enumerate(("app", "app", "api", "cmd", "app", "app")):
        ctx.rnd("at once", W.profile(m, nids=(5, 5, 7, 6, 4, 9)[i], drop=("undoall", "meta.name")), n, length, seed=seed + (i if i != 1 else 0))
    cols = [[l for l in open(p) if l.strip()] for p in ctx.scripts]
    for p in ctx.scripts:
        os.unlink(p)
    ctx.scripts = before
    p, out = ctx.path("par.ndjson"), ctx.path("par-out.ndjson")
    with open(p, "w") as f:
        for i, row in enumerate(zip(*cols)):
            f.write('{"t":"at-once-%d","job":"par","scripts":[%s]}\n' % (i, ",".join(x.strip() for x in row)))
    r = subprocess.run([exe, "run", "-in", p, "-out", out, "-workers", "3"], capture_output=True, text=True, timeout=700, cwd=ctx.dir,
                       env=dict(os.environ, GORACE="halt_on_error=1", **GOENV))
    if r.returncode != 0:
        raise CheckError("harness: %s %s" % (r.stdout[-500:], r.stderr[-1500:]))
    ctx.cov["parts"].append("%d groups of %d scripts run alone and all at once%s" % (n, len(cols), ", with the race detector" if race else ""))
    ctx.check_traces(out, ["Par"], module="ParTrace")


def ren(ctx, k=0):
    return W.usable(W.rename(ctx, k))


ALLK = ["new", "read", "app", "cmd", "cmd", "cmd", "cmd", "api", "api", "undo", "redo", "tnew", "tworld", "tread", "tadd", "tadd", "tadd", "tdel", "probe"]
TREEK = ["tnew", "tread", "tread", "tadd", "tadd", "tadd", "tadd", "tadd", "tadd", "tdel", "tdel", "probe"]
DISKK = ["new", "read", "api", "api", "api", "api", "cmd", "save", "save", "save", "load"]


def c20(ctx):
    T = ctx.thorough
    big = 10**6
    walk(ctx, "worlds", 9000 if not T else big, 2)
    e = walk(ctx, "mixed", 7000 if not T else big, 2)
    walk(ctx, "mixed", 3000 if not T else big, 2, rename=ren(ctx), edges=e)
    walk(ctx, "trees2", 4000 if not T else big, 2)
    rnd(ctx, "everything", ALLK, 40 if not T else 1200, 60, nslots=3)
    rnd(ctx, "many", ALLK, 15 if not T else 400, 80, nslots=6, seed=1)
    rnd(ctx, "stored", ALLK + ["save", "save", "load", "load"], 15 if not T else 400, 60, nslots=3, disk=True, seed=2)
    walk(ctx, "stores", 1500 if not T else 40000, 1, disk=True, names=["x", "y"], stores=2, places=2)
    rnd(ctx, "several stores", ALLK + ["save"] * 4 + ["load"] * 3 + ["place"], 15 if not T else 400, 60, nslots=3, disk=True, seed=3, stores=3, places=2)
    ctx.flush(["C20"], module="MultiTrace")
    at_once(ctx, 25 if not T else 600, 40)


def c21(ctx):
    T = ctx.thorough
    big = 10**6
    e = walk(ctx, "trees", 8000 if not T else big, 1)
    walk(ctx, "trees", 4000 if not T else big, 1, rename=ren(ctx), edges=e)
    walk(ctx, "trees2", 5000 if not T else big, 2)
    if T:
        walk(ctx, "trees4", 250000, 1)
    rnd(ctx, "trees", TREEK, 60 if not T else 1500, 60, nslots=2)
    rnd(ctx, "trees of worlds", TREEK + ["new", "cmd", "cmd", "cmd", "cmd", "tworld", "tworld"], 30 if not T else 800, 60, nslots=3, seed=1)
    big_trees(ctx, [70] if not T else [33, 70, 130, 260])
    ctx.flush(["C21"], module="MultiTrace")


def c15(ctx):
    T = ctx.thorough
    big = 10**6
    e = walk(ctx, "disk", 9000 if not T else big, 2, disk=True, names=["x", "y"])
    if T:
        walk(ctx, "disk3", 300000, 2, disk=True, names=["x", "y"])
    large_stores(ctx, [10000, 70000, 140000] if not T else [5000, 10000, 33000, 40000, 66000, 70000, 140000, 270000, 600000])
    many_stores(ctx, 100 if not T else 300)
    rnd(ctx, "store", DISKK, 60 if not T else 1500, 60, nslots=2, disk=True)
    rnd(ctx, "store, more worlds", DISKK, 20 if not T else 500, 80, nslots=4, disk=True, seed=1)
    walk(ctx, "stores", 3000 if not T else big, 1, disk=True, names=["x", "y"], stores=2, places=2)
    rnd(ctx, "several stores", DISKK + ["place", "app"], 20 if not T else 500, 60, nslots=3, disk=True, seed=2, stores=3, places=3)
    ctx.flush(["C15"], module="MultiTrace")


def big_trees(ctx, sizes):
    """Trees with one very wide component and one very deep chain; moves between the two, deletions, and trees read from their parts."""
    p = ctx.path("bigtrees.ndjson")
    with open(p, "w") as f:
        for i, n in enumerate(sizes):
            r = random.Random(ctx.seed * 100 + i)
            add = lambda at, x, **kw: op("tadd", 1, at=at, c=cmd("", id=x, p=params(r)), **kw)
            ops = [op("tnew", 1), op("tnew", 2), add("", "wide"), add("", "deep")]
            ops += [add("wide", "w%d" % j) for j in range(n)]
            ops += [add("deep" if j == 0 else "d%d" % (j - 1), "d%d" % j) for j in range(n)]
            ops += [op("tread", 2, src=1), op("tread", 2, src=1, at="wide"), op("tread", 2, src=1, at="d%d" % (n // 2))]
            for j in r.sample(range(n), 12):     # under each of some of the many, and moves into and out of the chain
                ops += [add("w%d" % j, "new%d" % j), add(r.choice(["", "d%d" % r.randrange(n)]), "w%d" % j)]
            for j in r.sample(range(1, n - 1), 6):
                ops += [op("tdel", 1, at="", c=cmd("", id="d%d" % j)), op("probe", 1, c=cmd("", id="w%d" % j, p=params(r)))]
            ops += [add("w%d" % (n - 1), "wide"), op("tread", 2, src=1), add("", "wide"), op("tdel", 1, at="", c=cmd("", id="wide")), op("tdel", 1, at="deep", c=cmd("", id="d0")), op("tread", 2, src=1), op("tdel", 1, at="", c=cmd("", id="deep"))]
            f.write(json.dumps({"t": "big-trees-%d" % i, "job": "multi", "slots": 2, "disk": False, "names": [], "uni": [], "ops": ops}) + "\n")
    ctx.scripts.append(p)
    ctx.cov["parts"].append("trees with a component of %d components beside a chain as deep: %d runs" % (max(sizes), len(sizes)))


def large_stores(ctx, sizes):
    """Worlds of many kilobytes saved beside small ones, made larger and smaller, and loaded."""
    r = random.Random(ctx.seed + 11)
    p = ctx.path("large.ndjson")
    with open(p, "w") as f:
        for i, size in enumerate(sizes):
            per = max(r.choice([900, 3000]), size // r.randint(8, 20))
            long = lambda: ("%d " % r.randrange(1000) + "text, " * per)[:per]
            api = lambda slot, c: op("api", slot, c=c)
            ops = [op("new", 1, name="x"), op("new", 2, name="y"), api(2, cmd("item.create", id="small")), op("save", 2)]
            k = max(2, size // per)
            ops += [api(1, cmd("item.create", id="b%d" % j, p=[["expanded", long()]])) for j in range(k // 2)]
            ops += [op("save", 1), op("load", 2, name="x")]
            ops += [api(1, cmd("item.create", id="b%d" % j, p=[["expanded", long()]])) for j in range(k // 2, k)]
            ops += [api(1, cmd("nest", ids=["b1"], to="b0")), api(1, cmd("rel.create", id="b0", to="b1", p=[["expanded", long()]])), op("save", 1), op("load", 2, name="y"),
                    op("load", 2, name="x"), api(2, cmd("item.set", id="b0", p=[["expanded", ""]])), op("save", 2), op("load", 1, name="x")]
            ops += [api(1, cmd("item.delete", id="b%d" % j)) for j in range(1, k)]
            ops += [op("save", 1), op("load", 2, name="x"), op("load", 2, name="y")]
            f.write(json.dumps({"t": "large-stores-%d" % i, "job": "multi", "slots": 2, "disk": True, "names": ["x", "y"], "uni": [], "ops": ops}) + "\n")
    ctx.scripts.append(p)
    ctx.cov["parts"].append("stores with worlds of up to %d kB: %d runs" % (max(sizes) // 1000, len(sizes)))


def many_stores(ctx, n):
    """Many saved worlds, among them some whose long names differ only at the end."""
    r = random.Random(ctx.seed + 12)
    long = "n" * 100 + " " + "m" * 120
    names = ["w%d" % i for i in range(n)] + [long + x for x in ("a", "b", "A")] + [long[:k] for k in (31, 32, 63, 64, 65, 100, 127, 128, 200, 220)]
    api = lambda slot, c: op("api", slot, c=c)
    r.shuffle(names)
    ops = [op("new", 1, name="x"), op("new", 2, name="y")]
    for i, x in enumerate(names):
        ops += [api(1, cmd("meta.name", id=x)), api(1, cmd("meta.expanded", id="no. %d" % i)), op("save", 1)]
    for x in r.sample(names, 6):
        ops += [op("load", 2, name=x), api(2, cmd("item.create", id="new")), op("save", 2)]
    p = ctx.path("many.ndjson")
    with open(p, "w") as f:
        f.write(json.dumps({"t": "many-stores", "job": "multi", "slots": 2, "disk": True, "names": names, "uni": [], "ops": ops}) + "\n")
    ctx.scripts.append(p)
    ctx.cov["parts"].append("a store with %d worlds" % len(names))


def fault_jobs(ctx, hows, calls, label, big=False):
    """Runs in which saves fail: of a world saved before, under new names, and into a store that does not exist yet."""
    r, T = random.Random(ctx.seed), ctx.thorough
    jobs, size = [], {False: 2, True: 30}.get(big, big)
    api = lambda slot, c: op("api", slot, c=c)
    fs = lambda slot, how, n: op("fsave", slot, fault={"how": how, "n": n})
    build = lambda slot, k: [api(slot, cmd("item.create", id="b0", p=[["name", "n"]])), api(slot, cmd("item.create", id="b1", p=[["expanded", "long text " * 9000]]))] if k == "huge" else [api(slot, cmd("item.create", id="b%d" % i, p=[["name", "n" * 60], ["expanded", "long text " * 8]])) for i in range(k)]
    for how in hows:
        ns = range(calls) if how not in ("fsize", "fsize%", "nofile", "dirfile", "late") else [0] if how in ("nofile", "dirfile", "late") else [0, 1, 20, 40, 60, 90, 99, 100] if how == "fsize%" else [0, 1, 4096]
        ns = list(ns)
        if ">" in how:
            ns = [20 * a + b for a in range(calls) for b in range(8 if T else 5)]
        # saved before: every failing save carries a change
        ops = [op("new", 1, name="x"), op("new", 2, name="y"), api(2, cmd("item.create", id="other"))] + build(1, size) + [op("save", 2), op("save", 1)]
        for k, n in enumerate(ns):
            ops += [api(1, cmd("meta.expanded", id="version %d" % n)), api(1, cmd("item.set", id="b0", p=[["name", "n%d" % n]])), fs(1, how, n)]
            if k % 4 == 3:
                ops += [op("load", 2, name="x"), op("save", 1), op("load", 2, name="y")]
        jobs.append(dict(ops=ops, names=["x", "y"]))
        # new names
        ops, names = [op("new", 1, name="x"), op("new", 2, name="y"), op("save", 2)] + build(1, size), ["x", "y"]
        for n in ns:
            name = "new %d" % n
            names.append(name)
            ops += [api(1, cmd("meta.name", id=name)), fs(1, how, n)]
            if n % 5 == 4:
                ops += [op("save", 1), op("load", 2, name=name)]
        jobs.append(dict(ops=ops, names=names))
        # the very first save
        for n in ns if not big and ">" not in how else []:
            jobs.append(dict(ops=[op("new", 1, name="x"), op("new", 2, name="y"), api(1, cmd("item.create", id="b0")), fs(1, how, n), op("save", 1), op("load", 2, name="x")], names=["x", "y"]))
    p = ctx.path("faults.ndjson")
    with open(p, "w") as f:
        for i, j in enumerate(jobs):
            f.write(json.dumps(dict(j, t="faults:%s-%d" % (label, i), job="multi", slots=2, disk=True, uni=[])) + "\n")
    ctx.scripts.append(p)
    ctx.cov["parts"].append("failing saves (%s): %d runs, faults %s at each of the first %d system calls of the save" % (label, len(jobs), ", ".join(hows), calls))


def random_faults(ctx, n):
    r = random.Random(ctx.seed + 7)
    p = ctx.path("faults.ndjson")
    with open(p, "w") as f:
        for i in range(n):
            j = random_job(r, i, DISKK, 3, 30, True, "random faults")
            out = []
            for o in j["ops"]:
                out.append(o)
                if o["e"] == "save" and r.random() < 0.7:
                    o["e"] = "fsave"
                    how = r.choice(["kill"] * 4 + ["ENOSPC", "EIO+", "EACCES", "fsize%", "nofile", "ENOSPC+", "late", "dirfile"])
                    o["fault"] = {"how": how, "n": r.randrange(100) if how == "fsize%" else r.randrange(14)}
            j["ops"] = out
            f.write(json.dumps(j) + "\n")
    ctx.scripts.append(p)
    ctx.cov["parts"].append("random runs with failing saves: %d" % n)


def c16(ctx):
    T = ctx.thorough
    ctx.model_check("SaveProtocol_rename", module="SaveProtocol", workers=1)
    for bad in ("inplace", "aside", "fallback"):
        ctx.model_fails("SaveProtocol_" + bad, module="SaveProtocol")
    fault_jobs(ctx, ["kill", "ENOSPC", "EIO+", "fsize%", "nofile", "dirfile", "late"], 20, "small")
    fault_jobs(ctx, ["kill", "fsize%"] if not T else ["kill", "EIO", "ENOSPC+", "EACCES", "EDQUOT+", "fsize%"], 20 if not T else 40, "large", big=True)
    if T:
        fault_jobs(ctx, ["EIO", "EACCES", "EDQUOT", "ENOSPC+", "EPERM+", "EMFILE", "EROFS+", "fsize"], 40, "more errors")
    fault_jobs(ctx, ["kill", "fsize%"] if not T else ["kill", "EIO", "ENOSPC+", "fsize%"], 20 if not T else 40, "huge", big="huge")
    fault_jobs(ctx, ["EIO>kill"] if not T else ["EIO>kill", "EIO>ENOSPC+", "EXDEV>kill", "EACCES>EIO"], 14, "an error, and then a second fault")
    random_faults(ctx, 30 if not T else 700)
    ctx.flush(["C16"], module="MultiTrace")
