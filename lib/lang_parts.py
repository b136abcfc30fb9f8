"""Checks decided by Lang.tla / LangTrace.tla: C18, and the refused near-commands of C11."""
import json
import world_parts as W


def cases(ctx, cfg):
    """The cases printed by the instance."""
    out = []
    for line in open(ctx.model_check(cfg, module="Lang", workers=1)):
        if line.startswith('"EDGE '):
            out.append(json.loads(json.loads(line)[5:]))
    return out


def jobs(ctx, cs, label, size=150):
    p = ctx.path("lang.ndjson")
    with open(p, "w") as f:
        for i in range(0, len(cs), size):
            f.write(json.dumps({"t": "%s-%d" % (label, i // size), "job": "lang", "ops": cs[i:i + size]}) + "\n")
    return p


def c18(ctx):
    T = ctx.thorough
    for cfg in (["Lang_small"] if not T else ["Lang_small", "Lang_full", "Lang_deep"]):
        cs = cases(ctx, cfg)
        ctx.cov["parts"].append("%s: %d spellings of commands, %d texts that are none" % (cfg, sum(c["e"] == "parse" for c in cs), sum(c["e"] == "bad" for c in cs)))
        ctx.check_traces(ctx.run_scripts(jobs(ctx, cs, cfg)), ["C18"], module="LangTrace")
    p = ctx.path("lang.ndjson")
    ctx.harness("genlang", "-seed", ctx.seed, "-n", 40 if not T else 600, "-len", 150, "-out", p, "-label", "random-spelling")
    ctx.check_traces(ctx.run_scripts(p), ["C18"], module="LangTrace")
    W.c18_effects(ctx)


SETUP = ["item create a name=x", 'item create "b c"', "item create k type=code", 'nest a in "b c"', 'rel create a "b c" verb=v']


def bad_scripts(ctx, n):
    """Runs in which near-commands are sent to an application that holds a small world."""
    bad = [c["txt"] for c in cases(ctx, "Lang_small") if c["e"] == "bad"]
    bad = sorted(set(bad))
    ctx.rng.shuffle(bad)
    p = ctx.path("bad.ndjson")
    mk = lambda k, **kw: dict({"k": k, "id": "", "to": "", "ids": [], "p": [], "lim": 0, "strict": False}, **kw)
    cmds = [mk("item.create", id="a", p=[["name", "x"]]), mk("item.create", id="b c"), mk("item.create", id="k", p=[["type", "code"]]),
            mk("nest", ids=["a"], to="b c"), mk("rel.create", id="a", to="b c", p=[["verb", "v"]])]
    last = mk("item.fetch", id="a")
    with open(p, "w") as f:
        for i in range(0, min(n, len(bad)), 50):
            ops = [{"e": "cmd", "c": c, "txt": t} for c, t in zip(cmds, SETUP)]
            for b in bad[i:i + 50]:
                ops.append({"e": "raw", "c": mk(""), "txt": b, "inv": True})
            ops += [{"e": "cmd", "c": last, "txt": "item fetch a"}, {"e": "undo", "c": mk("")}, {"e": "undo", "c": mk("")}, {"e": "redo", "c": mk("")}]
            f.write(json.dumps({"t": "near-commands-%d" % (i // 50), "mode": "app", "name": "w", "uni": ["a", "b c", "k"], "ops": ops}) + "\n")
    ctx.scripts.append(p)
    ctx.cov["parts"].append("near-commands from Lang_small: %d of %d" % (min(n, len(bad)), len(bad)))
