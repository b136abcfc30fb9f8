"""Checks decided by World.tla / Topolith.tla / Trace.tla: C01 - C13 (and the effect part of C18)."""
import json

BASE = {"item.create": 6, "item.cof": 2, "item.cos": 3, "item.set": 4, "item.clear": 3, "item.delete": 3, "item.fetch": 1, "item.list": 1,
        "item.in": 1, "item.exists": 1, "rel.create": 6, "rel.cof": 2, "rel.cos": 3, "rel.set": 3, "rel.clear": 2, "rel.delete": 2,
        "rel.fetch": 2, "rel.list": 1, "rel.exists": 1, "to?": 1, "from?": 1, "in?": 2, "nest": 6, "free": 2, "world": 1}
HIST = {"undo": 5, "redo": 1, "undoall": 1}
META = {"meta.name": 1, "meta.id": 1, "meta.expanded": 1, "meta.version": 1}
QUERY0 = {k: 0 for k in ("item.list", "rel.list", "item.exists", "rel.exists", "in?", "world")}
API_KINDS = {"item.create", "item.set", "item.delete", "item.fetch", "item.list", "item.in", "rel.create", "rel.set", "rel.delete", "rel.fetch",
             "rel.list", "to?", "from?", "in?", "nest", "free"}
ODD = ["a::b", "c", "a", "b::c"]          # pairs whose joined names coincide


def weights(mode, boost=None, extra=None, drop=()):
    k = dict(BASE)
    for b, v in (boost or {}).items():
        k[b] = v
    if mode == "api":
        k = {x: v for x, v in k.items() if x in API_KINDS}
        k.update(META)
        k["reload"] = 1
    elif mode == "cmd":
        k.update(META)
        k.update({"undo": 3, "redo": 1, "raw": 1, "reload": 1})
    else:
        k.update(HIST)
        k.update({"raw": 3, "reload": 1})
    k.update(extra or {})
    for d in drop:
        k.pop(d, None)
    return k


def profile(mode, nids=6, odd=True, vals=True, spell=True, build=60, pinned=None, **kw):
    return {"Kinds": weights(mode, **kw), "NIds": nids, "Odd": odd, "Vals": vals, "Spell": spell, "Mode": mode, "Build": build, "Pinned": pinned or []}


RENAMES = ["a=nil,b=a::b,c=tree{,d=$$world", "a=b c,b=a::b,c=c,d=a", "a=::,b=in b,c=ok,d= a", "a=in,b=item,c=world,d=nil nil", "a=1,b=00,c=-x,d=#",
           "a=a::b,b=c,c=a,d=b::c", "a=A,b=a,c=a.b,d=[a]"]


def rename(ctx, k=0):
    return RENAMES[(ctx.seed + k) % len(RENAMES)]


def usable(r):
    ok = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.,!@#$%^&*()[]+=~;: ")
    return ",".join(kv for kv in r.split(",") if all(c in ok for c in kv.split("=", 1)[1]))


def mc(ctx, name, modes, budget, **kw):
    edges = ctx.model_check(name, workers=1)
    for i, m in enumerate(modes):
        opts = dict(kw)
        if isinstance(m, tuple):
            m, o = m
            opts.update(o)
        if opts.get("rename") is True:
            opts["rename"] = usable(rename(ctx, i))
        ctx.walk(edges, name, mode=m, budget=opts.pop("budget", budget), **opts)


def rnds(ctx, label, n, length, modes=("app", "cmd", "api"), **kw):
    for i, m in enumerate(modes):
        for j, nids in enumerate((4, 8) if not ctx.thorough else (3, 5, 8, 14)):
            ctx.rnd(label, profile(m, nids=nids, **kw), n, length, seed=10 * i + j)


def big(ctx, modes=("app",), nids=None, n=2, length=30, seed=500, label="large worlds", pre=False, **kw):
    """Worlds with many items, a deep chain of containment, an item with many components and many relationships."""
    nids = nids or (36 if not ctx.thorough else 70)
    for i, m in enumerate(modes):
        p = dict(profile(m, nids=nids, **kw), Big=True, Pre=pre, Wide=ctx.pid == "C09")
        ctx.rnd(label, p, n if not ctx.thorough else n * 8, length, seed=seed + i)


def huge(ctx, modes, seed=700, **kw):
    """Short runs that start from worlds with well over a hundred items."""
    big(ctx, modes, nids=140 if not ctx.thorough else 200, n=1, length=25 if not ctx.thorough else 50, seed=seed, label="very large worlds", pre=True, **kw)


def words(ctx, modes, n=1, **kw):
    """Every special text as the value of every attribute, given by every kind of command, and as a name."""
    for i, m in enumerate(modes):
        ctx.rnd("special texts", dict(profile(m, nids=3, **kw), Words=True, NWords=100), n if not ctx.thorough else n * 4, 1, seed=900 + i)


def giant(ctx, modes, reload=True):
    """Attributes of tens of thousands of characters, alike but for their ends."""
    a, b, c = "long text, and on " * 4000, "long text, and on " * 3999 + "long text, and off", "A" * 66000
    def o(k, **kw):
        return {"e": "cmd", "c": dict({"k": k, "id": "", "to": "", "ids": [], "p": [], "lim": 0, "strict": False}, **kw)}
    q = lambda x: dict(o(""), e=x)
    ops = [o("item.create", id="a", p=[["expanded", a]]), o("item.create", id="b", p=[["name", "n"]]), o("nest", ids=["b"], to="a"), o("rel.create", id="a", to="b", p=[["verb", c]]),
           o("item.set", id="b", p=[["expanded", b]]), o("item.set", id="a", p=[["name", c]]), o("item.list"), o("rel.list"), o("world"), q("undo"), q("redo"),
           o("item.create", id="a", p=[["expanded", b]]), o("item.cos", id="a", p=[["expanded", b]]), q("undo"), o("item.fetch", id="a")] + ([q("reload")] if reload else []) + [
           o("rel.set", id="a", to="b", p=[["expanded", a], ["mechanism", "m"]]), o("rel.fetch", id="a", to="b"), o("item.delete", id="a"), q("undo"), o("item.clear", id="a", p=[["expanded", ""]]),
           q("undo"), o("rel.clear", id="a", to="b", p=[["verb", ""]]), o("to?", id="b"), o("item.in", id="a"), q("undo"), q("undo"), q("redo"), o("world")]
    p = ctx.path("giant.ndjson")
    with open(p, "w") as f:
        for m in modes:
            f.write(json.dumps({"t": "giant:" + m, "mode": m, "seed": 1, "name": "w", "uni": [], "pre": 0, "ops": [dict(x, e="api") if m == "api" and x["e"] == "cmd" else x for x in ops if m != "api" or x["e"] == "reload" or x["c"]["k"] in API_KINDS]}) + "\n")
    ctx.scripts.append(p)
    ctx.cov["parts"].append("attributes of 66000 to 72000 characters, modes %s" % ", ".join(modes))


R = dict(rename=True, spell=True)


def c01(ctx):
    T = ctx.thorough
    mc(ctx, "MC_tree3", ["app", ("api", R)], 10**6)
    mc(ctx, "MC_tree4", ["cmd"] if not T else ["app", "cmd", "api", ("app", R)], 6000 if not T else 10**6)
    if T:
        mc(ctx, "MC_tree4full", ["app", "api"], 60000)
        mc(ctx, "MC_tree5", ["app", ("cmd", R)], 60000)
    rnds(ctx, "tree-heavy", 20 if not T else 300, 50, boost={"nest": 14, "item.delete": 6, "free": 4}, extra={"undo": 4, "reload": 2})
    big(ctx, ("app", "api"), boost={"nest": 14, "item.delete": 6, "free": 4}, extra={"reload": 2}, drop=("undoall",))
    huge(ctx, ("app", "api"), boost={"nest": 14, "item.delete": 6, "free": 4}, extra={"reload": 2}, drop=("undoall",))
    ctx.flush(["C01"])


def c02(ctx):
    T = ctx.thorough
    mc(ctx, "MC_rel2", ["app", ("api", R), ("cmd", R)], 10**6)
    mc(ctx, "MC_rel3", [("app", dict(rename="a=a::b,b=c,c=a", spell=True))] if not T else ["app", "cmd", "api", ("app", R)], 6000 if not T else 10**6)
    if T:
        mc(ctx, "MC_rel3full", ["app", ("api", R)], 80000)
    b = {"rel.create": 12, "rel.set": 5, "rel.delete": 4, "item.delete": 4}
    rnds(ctx, "relationship-heavy", 15 if not T else 250, 50, boost=b)
    ctx.rnd("joined names", profile("app", nids=6, pinned=ODD, boost=b), 25 if not T else 300, 50, seed=77)
    ctx.rnd("joined names", profile("api", nids=6, pinned=ODD, boost=b), 25 if not T else 300, 50, seed=78)
    big(ctx, ("app", "api"), boost=b, drop=("undoall",))
    huge(ctx, ("app", "api"), boost=b, drop=("undoall",))
    words(ctx, ("app",))
    ctx.flush(["C02"])


def attrs(ctx, inv):
    T = ctx.thorough
    mc(ctx, "MC_attr2", ["app", "cmd", ("api", R)], 5000 if not T else 10**6)
    mc(ctx, "MC_attr1", [("app", R)] if not T else ["app", "cmd", ("api", R)], 4000 if not T else 10**6)
    b = {"item.create": 8, "item.cof": 4, "item.cos": 6, "item.set": 8, "item.clear": 6, "rel.create": 8, "rel.cof": 3, "rel.cos": 6, "rel.set": 6, "rel.clear": 5}
    rnds(ctx, "attribute-heavy", 15 if not T else 300, 50, boost=b)
    big(ctx, ("app", "api"), boost=b, drop=("undoall",))
    huge(ctx, ("app", "api"), boost=b, drop=("undoall",))
    words(ctx, ("app", "cmd", "api"))
    giant(ctx, ("app", "api"))
    ctx.flush([inv])


def c03(ctx):
    attrs(ctx, "C03")


def c04(ctx):
    attrs(ctx, "C04")


def c05(ctx):
    T = ctx.thorough
    mc(ctx, "MC_tree3", ["app", ("api", R), ("cmd", R)], 10**6)
    mc(ctx, "MC_tree4full", ["app"] if not T else ["app", "cmd", "api", ("app", R)], 6000 if not T else 10**6)
    mc(ctx, "MC_multi4", ["app", ("cmd", R)], 3000 if not T else 10**6)
    if T:
        mc(ctx, "MC_tree5", ["app", ("api", R)], 100000)
    rnds(ctx, "tree-heavy", 15 if not T else 300, 50, boost={"nest": 20, "free": 8, "rel.create": 6})
    big(ctx, ("app", "api"), boost={"nest": 20, "free": 8}, drop=("undoall",))
    huge(ctx, ("app", "api"), boost={"nest": 20, "free": 8}, drop=("undoall",))
    ctx.flush(["C05"])


def c06(ctx):
    T = ctx.thorough
    mc(ctx, "MC_tree4", ["app", ("api", R)], 4000 if not T else 10**6)
    mc(ctx, "MC_rel3", ["app", ("cmd", R)] if not T else ["app", "cmd", "api", ("app", R)], 4000 if not T else 10**6)
    if T:
        mc(ctx, "MC_rel3full", ["app", ("api", R)], 80000)
        mc(ctx, "MC_all3", ["app", "cmd", ("app", R)], 10**6)
    b = {"item.delete": 8, "rel.delete": 8, "nest": 10, "rel.create": 14}
    rnds(ctx, "delete-heavy", 15 if not T else 300, 50, boost=b)
    ctx.rnd("joined names", profile("app", nids=6, pinned=ODD, boost=b), 25 if not T else 300, 50, seed=77)
    big(ctx, ("app", "api"), boost=b, drop=("undoall",))
    huge(ctx, ("app", "api"), boost=b, drop=("undoall",))
    words(ctx, ("app",))
    ctx.flush(["C06"])


def c07(ctx):
    T = ctx.thorough
    mc(ctx, "MC_all2", ["app", ("api", R)], 7000 if not T else 10**6)
    mc(ctx, "MC_attr2", ["app", ("cmd", R)], 4000 if not T else 10**6)
    if T:
        mc(ctx, "MC_all3", ["app", ("api", R)], 10**6)
    b = {"item.set": 8, "item.clear": 6, "rel.set": 5, "nest": 10}
    rnds(ctx, "mixed", 15 if not T else 300, 50, boost=b, extra={"reload": 2})
    big(ctx, ("app", "api"), boost=b, extra={"reload": 2}, drop=("undoall",))
    huge(ctx, ("app", "api"), boost=b, extra={"reload": 2}, drop=("undoall",))
    words(ctx, ("app", "api"))
    ctx.flush(["C07"])


def c08(ctx):
    T = ctx.thorough
    mc(ctx, "MC_query2", ["app", ("cmd", R), ("api", R)], 5000 if not T else 10**6)
    mc(ctx, "MC_query3", [("app", dict(budget=7000 if not T else 10**6)), ("api", dict(R, budget=7000 if not T else 10**6))], 7000)
    if T:
        mc(ctx, "MC_query3full", ["app", "cmd", "api"], 10**6)
    b = {"item.fetch": 3, "item.list": 3, "item.in": 6, "item.exists": 3, "rel.fetch": 8, "rel.list": 3, "rel.exists": 3, "to?": 8, "from?": 8, "in?": 8, "world": 2,
         "nest": 10, "rel.create": 12}
    rnds(ctx, "query-heavy", 15 if not T else 300, 60, boost=b, drop=("undoall",))
    big(ctx, ("app", "api"), n=3, boost=b, drop=("undoall", "item.delete"))
    huge(ctx, ("cmd",), boost={"item.list": 30, "rel.list": 30}, drop=("undo", "redo", "reload", "raw"))
    huge(ctx, ("api",), seed=720, boost=b, drop=("reload",))
    ctx.flush(["C08"])


def c09(ctx):
    T = ctx.thorough
    mc(ctx, "MC_all2", [("app", dict(undo=True)), ("cmd", dict(R, undo=True))], 5000 if not T else 10**6, length=40)
    mc(ctx, "MC_tree3", [("app", dict(R, undo=True)), ("cmd", dict(undo=True))], 4000 if not T else 10**6, length=40)
    mc(ctx, "MC_multi4", [("app", dict(undo=True)), ("cmd", dict(R, undo=True))], 3000 if not T else 80000, length=40)
    if T:
        mc(ctx, "MC_all3", [("app", dict(undo=True)), ("cmd", dict(R, undo=True))], 120000, length=50)
        mc(ctx, "MC_rel3", [("app", dict(undo=True)), ("cmd", dict(R, undo=True))], 10**6, length=50)
        mc(ctx, "MC_tree4full", [("app", dict(undo=True))], 10**6, length=50)
    b = {"item.delete": 7, "nest": 10, "rel.create": 9, "item.clear": 4, "rel.clear": 4, "rel.delete": 4}
    rnds(ctx, "undo-heavy", 20 if not T else 400, 60, modes=("app", "cmd"), boost=b, extra={"undo": 14}, drop=("meta.name", "meta.id", "meta.expanded", "meta.version"))
    big(ctx, ("app", "cmd"), boost=b, extra={"undo": 14}, drop=("undoall", "meta.name", "meta.id", "meta.expanded", "meta.version"))
    huge(ctx, ("app", "cmd"), boost=b, extra={"undo": 14}, drop=("undoall", "meta.name", "meta.id", "meta.expanded", "meta.version"))
    ctx.rnd("long histories", profile("app", nids=3, extra={"undo": 10}, drop=("raw", "reload", "undoall")), 2 if not T else 12, 300, seed=91)
    ctx.rnd("very long histories", profile("app", nids=3, boost=QUERY0, extra={"undo": 3, "redo": 0}, drop=("raw", "reload")), 1 if not T else 8, 700, seed=95)
    words(ctx, ("app",), n=2)
    giant(ctx, ("app", "cmd"), reload=False)
    ctx.flush(["C09"])


def c10(ctx):
    T = ctx.thorough
    mc(ctx, "MC_hist", ["app", ("app", R)], 12000 if not T else 10**6, length=80)
    if T:
        mc(ctx, "MC_hist4", ["app"], 150000, length=100)
    for j, nids in enumerate((3, 6)):
        ctx.rnd("history-heavy", profile("app", nids=nids, extra={"undo": 16, "redo": 10, "undoall": 1}), 40 if not T else 800, 60, seed=j)
    for j, x in enumerate((("reload",), ("reload", "undoall"))):
        ctx.rnd("long histories", profile("app", nids=3, extra={"undo": 10, "redo": 6}, drop=x), 2 if not T else 12, 250, seed=91 + j)
    for j, x in enumerate(((), ("undoall",))):
        ctx.rnd("very long histories", profile("app", nids=3, boost=QUERY0, extra={"undo": 3, "redo": 1, "raw": 2}, drop=("reload",) + x), 1 if not T else 8, 700, seed=95 + j)
    ctx.flush(["C10"])


def c11(ctx):
    T = ctx.thorough
    mc(ctx, "MC_all2", ["app", ("cmd", R), ("api", R)], 4000 if not T else 10**6)
    for j, nids in enumerate((3, 6)):
        ctx.rnd("refusals", profile("app", nids=nids, build=30, extra={"raw": 60, "undo": 6}), 60 if not T else 1500, 60, seed=j)
        ctx.rnd("refusals", profile("cmd", nids=nids, build=30, extra={"raw": 30}), 20 if not T else 500, 60, seed=j + 2)
    import lang_parts
    lang_parts.bad_scripts(ctx, 1000 if not T else 10**6)
    rnds(ctx, "failing commands", 10 if not T else 300, 50, build=15)
    big(ctx, ("app", "api"), extra={"raw": 20}, drop=("undoall",))
    huge(ctx, ("app", "api"), extra={"raw": 20}, drop=("undoall",))
    ctx.flush(["C11"])


def c12(ctx):
    T = ctx.thorough
    mc(ctx, "MC_all2", ["app", ("app", R)], 6200 if not T else 10**6)
    mc(ctx, "MC_query2", ["app"], 3000 if not T else 10**6)
    if T:
        mc(ctx, "MC_query3", ["app", ("app", R)], 10**6)
        mc(ctx, "MC_attr2", ["app", ("app", R)], 10**6)
    for j, nids in enumerate((3, 5, 9)):
        ctx.rnd("replies", profile("app", nids=nids, extra={"raw": 12, "world": 4}), 40 if not T else 800, 60, seed=j)
    b = {"item.list": 6, "rel.list": 6, "to?": 6, "from?": 6, "item.in": 6}
    big(ctx, ("app",), n=4, boost=b, extra={"raw": 12, "world": 4}, drop=("undoall",))
    huge(ctx, ("app",), boost=b, extra={"raw": 12, "world": 4}, drop=("undoall",))
    words(ctx, ("app",))
    giant(ctx, ("app",))
    ctx.flush(["C12"])


def c13_world(ctx):
    T = ctx.thorough
    mc(ctx, "MC_all2", [("api", dict(R, reload=True)), ("app", dict(R, reload=True))], 4000 if not T else 10**6)
    if T:
        mc(ctx, "MC_all3", [("api", dict(R, reload=True)), ("app", dict(reload=True))], 10**6)
    x = {"reload": 12, "meta.name": 3, "meta.id": 3, "meta.expanded": 3, "meta.version": 3}
    for j, nids in enumerate((4, 9)):
        for i, m in enumerate(("api", "cmd")):
            ctx.rnd("text", profile(m, nids=nids, build=80, extra=x, boost={"nest": 12, "rel.create": 10, "item.set": 6, "rel.set": 6}), 40 if not T else 600, 60, seed=2 * j + i)
    big(ctx, ("api", "cmd"), extra=x, drop=("undoall",))
    huge(ctx, ("api", "cmd"), extra=x, drop=("undoall",))
    words(ctx, ("api", "cmd"))
    giant(ctx, ("api", "cmd"))
    ctx.flush(["C13", "C13m"])


def c18_effects(ctx):
    T = ctx.thorough
    mc(ctx, "MC_all2", [("app", R)], 4000 if not T else 10**6)
    for j, nids in enumerate((4, 8)):
        ctx.rnd("spellings", profile("app", nids=nids, drop=("undo", "undoall", "redo", "raw")), 50 if not T else 900, 50, seed=j)
    big(ctx, ("app",), n=3, boost={"item.list": 8, "rel.list": 8}, drop=("undo", "undoall", "redo", "raw"))
    huge(ctx, ("app",), boost={"item.list": 8, "rel.list": 8}, drop=("undo", "undoall", "redo", "raw"))
    words(ctx, ("app",))
    giant(ctx, ("app",))
    ctx.flush(["C18x"])
