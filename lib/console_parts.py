"""Checks decided by World.tla / ConsoleTrace.tla: C24, the real console run in a pseudo terminal."""
import json, os, random, re, subprocess, sys
import concurrent.futures as cf
import lang_parts as L
import world_parts as W
from core import CheckError, GOENV, REPO, VERIF
from multi_parts import cmd


def through(ctx, lines, workers=8):
    """Types the scripts into consoles; returns the jobs with what was printed."""
    exe = os.path.join(ctx.dir, "console")
    r = subprocess.run(["go", "build", "-o", exe, "./cmd/cli"], cwd=REPO, env=dict(os.environ, **dict(GOENV, GOFLAGS="-mod=readonly")), capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("the console build failed: " + r.stderr[-2000:])
    chunks = [c for c in (lines[i::workers * 2] for i in range(workers * 2)) if c]

    def one(c):
        a, b = ctx.path("console-in.ndjson"), ctx.path("console-out.ndjson")
        open(a, "w").write("\n".join(c) + "\n")
        r = subprocess.run([sys.executable, os.path.join(VERIF, "lib", "console.py"), exe, a, b], capture_output=True, text=True, timeout=750)
        if r.returncode != 0:
            raise CheckError("console.py: %d %s" % (r.returncode, r.stderr[-1500:]))
        return [l for l in open(b) if l.strip()]
    with cf.ThreadPoolExecutor(workers) as ex:
        return [l for r in ex.map(one, chunks) for l in r]


def typed(s):
    return 0 < len(s.strip()) <= 1500 and all(" " <= ch <= "~" for ch in s)


def collect(ctx, most):
    """The scripts collected so far as console jobs, at most so many lines each, with blank lines put in."""
    r = random.Random(ctx.seed)
    out = []
    for p in ctx.scripts:
        for line in open(p):
            if not line.strip():
                continue
            j = json.loads(line)
            ops = []
            for o in j["ops"]:
                t = o.get("txt", "")
                if o["e"] == "cmd":
                    t = re.sub("[\t\r\n]", " ", t)     # only the spaces between words can be these, and they cannot be typed
                if o["e"] not in ("cmd", "raw") or not typed(t):
                    continue
                if r.random() < 0.1:
                    t = r.choice(["", " ", "   "]) + t + r.choice(["", " ", "  "])
                ops.append({"e": o["e"], "c": o["c"], "txt": t, "inv": o.get("inv", False)})
                if r.random() < 0.03:
                    ops.append({"e": "blank", "c": cmd(""), "txt": r.choice(["", " ", "    "]), "inv": False})
            ops = ops[:most if len(ops) < 150 else 2 * most]
            if ops:
                out.append(json.dumps({"t": j["t"], "job": "console", "ops": ops}))
        os.unlink(p)
    ctx.scripts = []
    return out


def c24(ctx):
    T = ctx.thorough
    drop = ("undo", "undoall", "redo", "reload")
    W.mc(ctx, "MC_all2", [("app", dict(W.R, spell=True))], 500 if not T else 20000, length=80)
    for j, nids in enumerate((3, 8)):
        ctx.rnd("console", W.profile("app", nids=nids, drop=drop), 14 if not T else 200, 60, seed=j)
    ctx.rnd("console-bad-input", W.profile("app", extra={"raw": 40}, drop=drop), 6 if not T else 60, 60, seed=7)
    W.big(ctx, ("app",), nids=60, n=1, length=60, boost={"item.list": 12, "rel.list": 12, "item.in": 8, "world": 4}, drop=drop)
    L.bad_scripts(ctx, 150 if not T else 3000)
    lines = collect(ctx, 130)
    got = through(ctx, lines)
    p = ctx.path("console.ndjson")
    open(p, "w").writelines(got)
    ctx.scripts.append(p)
    ctx.flush(["C24"], module="ConsoleTrace")
