"""Checks decided by Errors.tla / ErrorsMC.tla / ErrTrace.tla: C22."""
import json, random

OK = "abcXYZ019-_.,!@#$%^&*()[]+=~;: "
OTHER = ["long \"text\" " * 60, "x" * 1025, "plain", "with \"quotes\"", "line\nbreak", "é ü", "404 error \"x\"", "]; errors=[", "", "$$$$ 200 ok", "a" * 200, "{}", "/tmp/x: no such file", "\\", "\"", "error"]


def text(r):
    return r.choice(["", "x", "not found", "a: b", "200 ok", " lead", "trail ", ": ", "endworld$$", "[x]", "".join(r.choice(OK) for _ in range(r.randrange(30))), "".join(r.choice(OK) for _ in range(r.choice([63, 64, 100, 128, 255, 256, 300, 500, 512, 1000, 1024, 3000])))])


def d(e, frm=0, n=0, s="", kvs=(), w=()):
    return {"e": e, "from": frm, "n": n, "s": s, "kvs": list(kvs), "w": list(w)}


def wraps(r, n):
    return [r.choice([["text", r.choice(OTHER)], ["text", text(r)], ["value", r.randrange(n) + 1], ["nil", ""]] if n else [["text", "x"], ["nil", ""]]) for _ in range(r.choice([0, 1, 1, 2, 3]))]


def history(r, length):
    ops = [d("new", s=text(r))]
    fork = r.random() < 0.5
    pivot = 1
    while len(ops) < length:
        n = len(ops)
        if fork and r.random() < 0.15:
            pivot = r.randrange(n) + 1
        frm = pivot if fork and r.random() < 0.6 else n if r.random() < 0.5 else r.randrange(n) + 1
        k = r.choice(["new", "code", "code", "desc", "data", "data", "data", "data", "clear", "wrap", "wrap", "wrap", "join"])
        if k == "new":
            ops.append(d(k, s=text(r)))
        elif k == "join":
            ops.append(d(k, w=wraps(r, n)))
        elif k == "code":
            ops.append(d(k, frm, n=r.choice([400, 404, 409, 450, 500, 502, 600, 1, 0, 999, 12345])))
        elif k == "desc":
            ops.append(d(k, frm, s=text(r)))
        elif k == "data":
            ops.append(d(k, frm, kvs=[[r.choice(OTHER), "%d-%d" % (n, i)] for i in range(r.choice([0, 1, 1, 1, 2, 3, 5]))]))
        elif k == "clear":
            ops.append(d(k, frm))
        else:
            ops.append(d(k, frm, w=wraps(r, n)))
    return ops


def exhaustive(ctx, cfg, most):
    hs = [json.loads(json.loads(line)[5:])["c"] for line in open(ctx.model_check(cfg, module="ErrorsMC", workers=1)) if line.startswith('"EDGE ')]
    ctx.rng.shuffle(hs)
    p = ctx.path("err.ndjson")
    with open(p, "w") as f:
        for i, h in enumerate(hs[:most]):
            f.write(json.dumps({"t": "%s-%d" % (cfg, i), "job": "err", "ops": h}) + "\n")
    ctx.scripts.append(p)
    ctx.cov["parts"].append("%s: %d of %d histories" % (cfg, min(most, len(hs)), len(hs)))


def randoms(ctx, n, length, seed):
    r = random.Random(ctx.seed * 1000 + seed)
    p = ctx.path("err.ndjson")
    with open(p, "w") as f:
        for i in range(n):
            f.write(json.dumps({"t": "random-%d" % i, "job": "err", "ops": history(r, length)}) + "\n")
    ctx.scripts.append(p)
    ctx.cov["parts"].append("random histories: %d of %d derivations" % (n, length))


def c22(ctx):
    T = ctx.thorough
    big = 10**7
    exhaustive(ctx, "Errors_all", 3000 if not T else big)
    exhaustive(ctx, "Errors_fork", 1200 if not T else big)
    exhaustive(ctx, "Errors_forkw", 1000 if not T else big)
    if T:
        exhaustive(ctx, "Errors_mixed", big)
        exhaustive(ctx, "Errors_deep", 60000)
    randoms(ctx, 80 if not T else 3000, 16, 1)
    randoms(ctx, 20 if not T else 500, 40, 2)
    ctx.flush(["C22"], module="ErrTrace")
