"""Checks decided by World.tla / BridgeTrace.tla: C19, the js/wasm build run in node."""
import json, os, random, shutil, subprocess
import concurrent.futures as cf
import lang_parts as L
import world_parts as W
from core import CheckError, GOENV, REPO, VERIF
from multi_parts import cmd


def build(ctx):
    node = shutil.which("node")
    env = dict(os.environ, **dict(GOENV, GOFLAGS="-mod=readonly"))
    root = subprocess.run(["go", "env", "GOROOT"], env=env, capture_output=True, text=True).stdout.strip()
    exe = next((p for p in (os.path.join(root, d, "wasm", "wasm_exec.js") for d in ("lib", "misc")) if os.path.exists(p)), None)
    if not node or not exe:
        raise CheckError("no node or wasm_exec.js")
    out = os.path.join(ctx.dir, "topolith.wasm")
    r = subprocess.run(["go", "build", "-o", out, "./cmd/wasm"], cwd=REPO, env=dict(env, GOOS="js", GOARCH="wasm"), capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("the wasm build failed: " + r.stderr[-2000:])
    return node, exe, out


def through(ctx, lines, workers=6):
    """Sends the scripts through the bridge; returns the jobs with what it returned."""
    node, exe, wasm = build(ctx)
    chunks = [c for c in (lines[i::workers * 2] for i in range(workers * 2)) if c]

    def one(c):
        a, b = ctx.path("bridge-in.ndjson"), ctx.path("bridge-out.ndjson")
        open(a, "w").write("\n".join(c) + "\n")
        r = subprocess.run([node, os.path.join(VERIF, "bridge", "run.js"), wasm, exe, a, b], capture_output=True, text=True, timeout=700)
        if r.returncode != 0 or not os.path.exists(b):
            raise CheckError("node: %d %s" % (r.returncode, r.stderr[-1500:]))
        return [l for l in open(b) if l.strip()]
    with cf.ThreadPoolExecutor(workers) as ex:
        return [l for r in ex.map(one, chunks) for l in r]


def collect(ctx):
    """The scripts collected so far as bridge jobs, with calls with a wrong number of arguments put in."""
    r = random.Random(ctx.seed)
    out = []
    for p in ctx.scripts:
        for line in open(p):
            if not line.strip():
                continue
            j = json.loads(line)
            ops = []
            for o in j["ops"]:
                if o["e"] not in ("cmd", "raw"):
                    continue
                ops.append({"e": o["e"], "c": o["c"], "txt": o.get("txt", ""), "inv": o.get("inv", False)})
                if r.random() < 0.04:
                    ops.append({"e": "badcall", "c": cmd("", lim=r.choice([0, 2, 3])), "txt": "", "inv": False})
            out.append(json.dumps({"t": j["t"], "job": "bridge", "ops": ops}))
        os.unlink(p)
    ctx.scripts = []
    return out


def c19(ctx):
    T = ctx.thorough
    drop = ("undo", "undoall", "redo", "reload")
    W.mc(ctx, "MC_all2", ["app", ("app", dict(W.R, spell=True))], 5000 if not T else 10**6, length=80)
    if T:
        W.mc(ctx, "MC_query2", ["app"], 10**6, length=100)
    for j, nids in enumerate((3, 8)):
        ctx.rnd("bridge", W.profile("app", nids=nids, drop=drop), 40 if not T else 900, 60, seed=j)
    ctx.rnd("bridge-bad-input", W.profile("app", extra={"raw": 40}, drop=drop), 10 if not T else 200, 60, seed=7)
    W.big(ctx, ("app",), boost={"item.list": 8, "rel.list": 8, "item.in": 6}, drop=drop)
    L.bad_scripts(ctx, 300 if not T else 10**6)
    lines = collect(ctx)
    got = through(ctx, lines)
    p = ctx.path("bridge.ndjson")
    open(p, "w").writelines(got)
    ctx.scripts.append(p)
    ctx.flush(["C19"], module="BridgeTrace")
