"""Checks decided by Doc.tla / Text.tla / TextTrace.tla: C14, C23, and the text parts of C13 and C21."""
import json, random, re
from multi_parts import IDS, VALS, TYPES, params


def tok(t, id="", to="", p=(), n=0):
    return {"t": t, "id": id, "to": to, "p": list(p), "n": n}


JUNK = ["x", "$$", "200 ok", "item create q", "world", "{", "]", "tree", "nil", "\"", "$$$$ 200 ok", "endworld", "tree{nil::[]}", "400 error \"no\"", "=", "version=1"]


def tree_toks(r, kids, par):
    out = []
    for x in kids[par]:
        out += [tok("TO"), tok("IT", x, p=params(r)), tok("OP")] + tree_toks(r, kids, x) + [tok("CL")]
    return out


def random_doc(r, kind):
    n = r.choice([0, 1, 2, 3, 5, 9, 14])
    ids = r.sample(IDS, min(n, len(IDS))) + ["i%d" % i for i in range(n - len(IDS))]
    deep = r.random() < 0.3
    kids = {"": []}
    for i, x in enumerate(ids):
        kids[ids[i - 1] if deep and i and r.random() < 0.8 else r.choice([""] + ids[:i])].append(x)
        kids[x] = []
    if kind == "tree":
        body = tree_toks(r, kids, "")
        if ids and r.random() < 0.4:      # the part under some item
            x = r.choice(ids)
            return [tok("TO"), tok("IT", x, p=params(r)), tok("OP")] + tree_toks(r, kids, x) + [tok("CL")]
        return [tok("TO"), tok("NI"), tok("OP")] + body + [tok("CL")]
    pairs = r.sample([(x, y) for x in ids for y in ids], r.choice([0, 1, 2, 5]) if len(ids) > 2 else r.choice([0, 1]) if ids else 0)
    return [tok("BW"), tok("VN", n=r.choice([0, 1, 7, 9, 10, 99, 100, 1000, 65536, 123456, 2147483647])), tok("ID", r.choice(["w", "a::b", "x y", "1"])), tok("NM", r.choice(VALS)), tok("EX", r.choice(VALS)),
            tok("TO"), tok("NI"), tok("OP")] + tree_toks(r, kids, "") + [tok("CL")] + [tok("RL", x, y, params(r, True)) for x, y in pairs] + [tok("EW")]


def edit(r, d, ids):
    d0, d = d, list(d)
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        if not d:
            break
        i = r.randrange(len(d))
        k = r.choice(["drop", "double", "swap", "cut", "start", "put", "put", "sub", "move"])
        if k == "drop":
            del d[i]
        elif k == "double":
            d.insert(i, d[i])
        elif k == "swap":
            j = r.randrange(len(d))
            d[i], d[j] = d[j], d[i]
        elif k == "cut":
            d = d[:i]
        elif k == "start":
            d = d[i:]
        elif k == "put":
            d.insert(i, r.choice([tok("RAW", r.choice(JUNK)), tok("RAW", r.choice(JUNK)), tok("TO"), tok("CL"), tok("NI"), tok("OP"), tok("EW"), tok("BW"),
                                  tok("IT", r.choice(ids)), tok("RL", r.choice(ids), r.choice(ids)), tok("VN", n=3), tok("ID", "q")]))
        elif k == "sub":
            d[i:i] = [tok("TO"), tok("IT", r.choice(ids + ["fresh"]), p=params(r)), tok("OP"), tok("CL")]
        else:
            x = d.pop(i)
            d.insert(r.randrange(len(d) + 1), x)
    d = d or d0
    for a, b in zip(d, d[1:]):
        if a["t"] in ("IT", "RL") and b["t"] in ("NM", "EX"):
            return edit(r, d0, ids)     # would be read as a parameter of the item or relationship
    return d


def jobs(ctx, ops, label, size):
    p = ctx.path("text.ndjson")
    with open(p, "w") as f:
        for i in range(0, len(ops), size):
            f.write(json.dumps({"t": "%s-%d" % (label, i // size), "job": "text", "ops": ops[i:i + size]}) + "\n")
    ctx.scripts.append(p)


def edited(ctx, cfg, most, parts):
    docs = []
    for line in open(ctx.model_check(cfg, module="Text", workers=1)):
        if line.startswith('"EDGE '):
            docs.append(json.loads(json.loads(line)[5:])["c"])
    ctx.rng.shuffle(docs)
    jobs(ctx, [{"e": "doc", "toks": d} for d in docs[:most]], cfg, 400)
    whole = [d for d in docs if d[0]["t"] in ("BW", "TO")]
    jobs(ctx, [{"e": "parts", "toks": d} for d in whole[:parts]], cfg + "-parts", 10)
    ctx.cov["parts"].append("%s: %d texts, read in %d; of up to %d complete ones every part" % (cfg, len(docs), min(most, len(docs)), parts))


def randoms(ctx, n, nparts, seed, kinds=("world", "tree")):
    r = random.Random(ctx.seed * 1000 + seed)
    ops, ps = [], []
    for i in range(n):
        d = random_doc(r, r.choice(kinds))
        if i < nparts:
            ps.append({"e": "parts", "toks": d})
        ops.append({"e": "doc", "toks": edit(r, d, IDS), "bare": r.random() < 0.3})
    jobs(ctx, ops, "random", 100)
    jobs(ctx, ps, "random-parts", 4)
    ctx.cov["parts"].append("random texts: %d, and every part of %d" % (n, nparts))


CMDS = ['item create a name="x y"', 'item create "b c" type=code', 'item a', 'nest a in "b c"', 'rel create a "b c" verb=v', 'rel a "b c"', 'item fetch a',
        'item list', 'rel list', 'world', 'in? a "b c"', 'item? a', 'item fetch missing', 'rel fetch a a', 'item delete missing', 'to? "b c"', 'from? a',
        'nonsense', '', '"', 'item set a type=nothing', 'item in "b c"', 'free a', 'item clear a name', 'item delete a', 'world --strict', 'item list 1', 'nest a in missing',
        'tree{nil::[]}', '$$world', 'items a', 'item "tree{nil::[]}"']
OTHER = ["x", " ", "\n", "$$$$ 200 ok", "200 ok", "400 error \"no\"", "404 error no", "$$", "$$$$", "nil", "{}", "[]", "tree", "tree{", "tree{nil", "tree{nil::[", "tree{nil::[]",
         "tree{}", "world", "$$world endworld$$", "$$worldendworld$$", "$$world\ntree{nil::[]}\nendworld$$", "endworld$$", "item a", "rel a b", "a b c", "\x00", "é", "{\"a\":1}",
         "$$world\nversion=1\nid=\"w\"\nname=\"w\"\nexpanded=\"\"\n\nendworld$$", "version=1\nid=\"w\"\nname=\"w\"\nexpanded=\"\"\ntree{nil::[]}\n",
         "$$world\nversion=x\nid=\"w\"\nname=\"w\"\nexpanded=\"\"\ntree{nil::[]}\nendworld$$", "$$world\nversion=\nid=\"w\"\nname=\"w\"\nexpanded=\"\"\ntree{nil::[]}\nendworld$$",
         "$$world\nversion=1\nid=\nname=\"w\"\nexpanded=\"\"\ntree{nil::[]}\nendworld$$", "tree{item::[]}", "tree{item \"a\"}", "tree{nil::[item \"a\"]}", "tree{nil::[tree{nil::[]}]}",
         "$$world\nversion=1\nid=\"w\"\nname=\"w\"\nexpanded=\"\"\nitem \"a\"\nendworld$$", "200 ok tree{nil::[]}", "tree{nil::[]}$$$$200 ok", "tree{nil::[]}\n$$$$\n200 ok"]


def others(ctx):
    r = random.Random(ctx.seed)
    ops = [{"e": "replies", "cmds": CMDS}]
    for _ in range(20):
        ops.append({"e": "replies", "cmds": CMDS[:5] + r.sample(CMDS, 12)})
    ops += [{"e": "text", "txt": t, "kind": "other"} for t in OTHER]
    alphabet = ["$$", "world", "tree{", "nil", "::[", "]}", "item", "rel", "\"a\"", "\"b\"", " ", "\n", "endworld", "version=1", "name=", "ok", "200", "error", "x"]
    for _ in range(400):
        ops.append({"e": "text", "txt": "x " + "".join(r.choice(alphabet) for _ in range(r.randrange(25))), "kind": "other"})
    jobs(ctx, ops, "other", 30)
    ctx.cov["parts"].append("commands, replies, statuses and other texts: %d" % len(ops))


def c14(ctx):
    T = ctx.thorough
    big = 10**7
    edited(ctx, "Text_small", 12000 if not T else big, 100 if not T else 3000)
    edited(ctx, "Text_tree", 5000 if not T else big, 50 if not T else 2000)
    if T:
        edited(ctx, "Text_wide", 200000, 2000)
        edited(ctx, "Text_deep", 200000, 0)
        edited(ctx, "Text_tree2", 100000, 0)
    randoms(ctx, 1500 if not T else 30000, 80 if not T else 2500, 1)
    others(ctx)
    ctx.flush(["C14"], module="TextTrace", batch=120000)


def c13_text(ctx):
    T = ctx.thorough
    edited(ctx, "Text_small", 4000 if not T else 10**7, 0)
    randoms(ctx, 700 if not T else 15000, 0, 2, kinds=("world",))
    ctx.flush(["C13"], module="TextTrace", batch=120000)


def c21_text(ctx):
    T = ctx.thorough
    edited(ctx, "Text_tree", 9000 if not T else 10**7, 60 if not T else 2000)
    randoms(ctx, 800 if not T else 15000, 40 if not T else 1000, 3, kinds=("tree", "tree", "world"))
    others(ctx)
    ctx.flush(["C21"], module="TextTrace", batch=120000)


# Texts that are neither an item's nor a relationship's: %s is an identifier, %p attributes of an item, %r of a relationship.
NOT_ONE = ["item create %s%p", "item set %s%p", "item clear %s name", "item delete %s", "item fetch %s", "item exists %s", "item? %s", "item list", "items list 3", "item in %s",
           "item", "items", "item in", "item create", "nest %s in %s", "free %s", "free %s %s", "rel create %s %s%r", "rel set %s %s%r", "rel clear %s %s verb", "rel delete %s %s",
           "rel fetch %s %s", "rel exists %s %s", "rel? %s %s", "rel list", "rels list 1", "to? %s", "from? %s --strict", "in? %s %s", "rel", "rel %s", "world", "item \"\"",
           "rel \"\" %s", "rel %s \"\"", "%s", "%s %s", "item %s %s", "rel %s %s %s", "item %s verb=x", "rel %s %s name=x", "item %s type=nothing", "item %s external=maybe",
           "item %s name=", "item %s name", "item %s%p x", "rel %s %s%r x", "200 ok", "404 error \"not found\"", "item %s%p\n$$$$\n200 ok", "rel %s %s%r\n$$$$\n200 ok", "%s %s\n$$$$\n200 ok",
           "$$$$ 200 ok", "true\n$$$$\n200 ok", "tree{nil::[]}", "tree{item %s%p::[]}", "tree{nil::[tree{item %s::[]}]}", "$$world\nversion=1\nid=\"w\"\nname=\"w\"\nexpanded=\"\"\ntree{nil::[tree{item %s%p::[]}]}\nendworld$$",
           "$$world\nversion=1\nid=\"w\"\nname=\"w\"\nexpanded=\"\"\ntree{nil::[tree{item %s%p::[]}]}\nrel %s %s%r\nendworld$$", "item %s%p\nitem %s", "item %s; item %s", "rel %s %s\nrel %s %s",
           "", " ", "\n", "x", "item item %s", "rel rel %s %s", "item \"%", "item {%s}", "{\"id\":%s}", "item %s name=\"x", "item %s name=x\"", "it em %s", "re l %s %s", "ITEM %s", "Item %s", "item=%s", "%p", "%r"]
LONG = ["x" * 300, "a b " * 100, "0123456789", "-", "_", ".", "=", "name=x", "type=code", "external=true", "item", "rel", "async", "%s", "100%", "%d%%", "::", "a::b::c", "[[]]", "tree", "  ", " x ", "true", "false", "None", "null"]


def one_params(r, rel=False):
    p = params(r, rel)
    for kv in p:
        if kv[0] in ("name", "mechanism", "expanded", "verb") and r.random() < 0.4:
            kv[1] = r.choice(LONG)
    if p and r.random() < 0.15:      # an attribute given twice: the last one counts
        p.insert(0, [r.choice(p)[0], "first"])
        if p[0][0] in ("type", "external", "async"):
            p[0][1] = {"type": r.choice(TYPES)}.get(p[0][0], r.choice(["true", "false"]))
    return p


def ones(ctx, n, seed):
    r = random.Random(ctx.seed * 1000 + seed)
    out = []
    ids = IDS + LONG
    q = lambda x: '"%s"' % x
    text = lambda p: "".join(" %s=%s" % (k, v if k in ("type", "external", "async") else q(v)) for k, v in p)
    for i in range(n):
        fill = lambda x: q(r.choice(mine)) if x == "%s" else text(params(r)) if x == "%p" else text(params(r, True)) if x == "%r" else x
        mine = r.sample(ids, r.choice([1, 2, 3, 4]))
        there = [tok("IT", x, p=params(r)) for x in mine]
        if r.random() < 0.5:
            k = tok("IT", r.choice(ids), p=one_params(r))
        else:
            k = tok("RL", r.choice(mine if r.random() < 0.9 else ids), r.choice(mine if r.random() < 0.9 else ids), one_params(r, True))
        out.append({"e": "one", "toks": [k], "in": there, "bare": r.random() < 0.4})
        k2 = dict(k, p=[kv for i, kv in enumerate(k["p"]) if kv[0] not in [x[0] for x in k["p"][i + 1:]]])
        if k["t"] == "IT" or {k["id"], k["to"]} <= set(mine):
            out.append({"e": "write", "toks": [k2], "in": there})
        d = edit(r, [k], mine)
        if not any(a["t"] in ("IT", "RL") and b["t"] == "RAW" and b["id"] == "=" for a, b in zip(d, d[1:])):
            out.append({"e": "one", "toks": d, "in": there, "bare": r.random() < 0.3})
        t = "".join(fill(x) for x in re.split("(%[spr])", r.choice(NOT_ONE)))
        out.append({"e": "one", "toks": [], "txt": t, "in": there})
    for t in NOT_ONE:
        for x in (["a", "b", "c", "d"], ["list", "in", "x y", "item"]):
            u = t
            for y in x * 2:
                u = u.replace("%s", q(y), 1)
            out.append({"e": "one", "toks": [], "txt": u.replace("%p", ' name="n"').replace("%r", ' verb="v"'), "in": [tok("IT", y) for y in x]})
    jobs(ctx, out, "one", 200)
    ctx.cov["parts"].append("random items, relationships, their damaged texts, and other texts, each read as both: %d" % len(out))


def edited_ones(ctx, cfg, most):
    docs = [json.loads(json.loads(l)[5:])["c"] for l in open(ctx.model_check(cfg, module="Text", workers=1)) if l.startswith('"EDGE ')]
    ctx.rng.shuffle(docs)
    there = [tok("IT", "a", p=[["name", "n"]]), tok("IT", "b")]
    ops = [{"e": "one", "toks": d, "in": there} for d in docs[:most]]
    ops += [{"e": "write", "toks": d, "in": there} for d in docs if len(d) == 1 and d[0]["t"] in ("IT", "RL") and d[0]["to"] != "z"]
    jobs(ctx, ops, cfg, 400)
    ctx.cov["parts"].append("%s: %d texts, read as item and as relationship: %d" % (cfg, len(docs), min(most, len(docs))))


def c23(ctx):
    T = ctx.thorough
    edited_ones(ctx, "Text_one", 10**7)
    if T:
        edited_ones(ctx, "Text_one2", 300000)
    ones(ctx, 2500 if not T else 60000, 11)
    ctx.flush(["C23"], module="TextTrace", batch=120000)
