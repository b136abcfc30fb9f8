"""Checks decided by Equal.tla / EqualTrace.tla: C17."""
import json, random
from multi_parts import IDS, VALS, TYPES, cmd, params


def api(c):
    return {"e": "api", "c": c}


def plist(rec, zero):
    return [[k, ("true" if v is True else "false" if v is False else v)] for k, v in rec.items() if v != zero]


def ops_of(r, w):
    """Ways of building a world, in some order, with detours that leave no trace."""
    out, meta = [], w["meta"]
    items, rels = list(w["items"]), list(w["rels"])
    r.shuffle(items)
    r.shuffle(rels)
    ids = [i["id"] for i in items]
    detour = r.random() < 0.5
    for i in items:
        p = [kv for kv in plist(i["a"], "") if kv[1] != "false"]
        r.shuffle(p)
        if detour and r.random() < 0.5:
            out.append(api(cmd("item.create", id=i["id"], p=[["name", "zzz"], ["external", "true"]])))
            out.append(api(cmd("item.set", id=i["id"], p=[["name", ""], ["external", "false"]])))
            out += [api(cmd("item.set", id=i["id"], p=[kv])) for kv in p]
        else:
            out.append(api(cmd("item.create", id=i["id"], p=p)))
    if detour:
        out.append(api(cmd("item.create", id="extra")))
    par = {i["id"]: i["par"] for i in items}
    if detour and items and r.random() < 0.5:
        out.append(api(cmd("nest", ids=[r.choice(ids)], to="extra")))
    nests = [x for x in ids if par[x]]
    r.shuffle(nests)
    for x in nests:
        if detour and r.random() < 0.3:
            out.append(api(cmd("nest", ids=[x], to="extra")))
        out.append(api(cmd("nest", ids=[x], to=par[x])))
    for x in ids:
        if not par[x]:
            out.append(api(cmd("free", ids=[x])))
    first = r.random() < 0.5
    ro = []
    for q in rels:
        p = [kv for kv in plist(q["a"], "") if kv[1] != "false"]
        r.shuffle(p)
        ro.append(api(cmd("rel.create", id=q["from"], to=q["to"], p=p)))
        if detour and r.random() < 0.4:
            ro.append(api(cmd("rel.create", id="extra", to=q["to"])))
        if detour and r.random() < 0.4:
            ro.append(api(cmd("rel.delete", id=q["from"], to=q["to"])))
            ro.append(api(cmd("rel.create", id=q["from"], to=q["to"], p=p)))
    out += ro
    if detour:
        out.append(api(cmd("item.delete", id="extra")))
    mo = [api(cmd("meta.expanded", id=meta["expanded"])), api(cmd("meta.id", id=meta["id"])), api(cmd("meta.name", id=meta["name"])), api(cmd("meta.version", lim=meta["version"]))]
    r.shuffle(mo)
    return mo + out if first else out + mo


def member(r, w):
    return {"name": r.choice(["w", "other"]), "ops": ops_of(r, w), "read": r.choice([0, 0, 0, 1, 2])}


def family(ctx, r, worlds, label, f, most=40, reps=2):
    ms = [member(r, w) for w in worlds]
    r.shuffle(ms)
    f.write(json.dumps({"t": label, "job": "eq", "seed": r.randrange(10**9), "reps": reps, "most": most, "members": ms}) + "\n")


def small(ctx, cfg, size, most):
    """All small worlds of the instance, in families of neighbours, each built twice."""
    ws = [json.loads(json.loads(line)[5:])["c"] for line in open(ctx.model_check(cfg, module="Equal", workers=1)) if line.startswith('"EDGE ')]
    r = random.Random(ctx.seed)
    p, n, k = ctx.path("eq.ndjson"), len(ws), 0
    with open(p, "w") as f:
        # in order (neighbours differ in little), and shuffled
        for order in (ws, r.sample(ws, n)):
            for i in range(0, n, size):
                if k >= most:
                    break
                k += 1
                part = order[i:i + size]
                family(ctx, r, part + part, "%s-%d" % (cfg, k), f, most=30)
    ctx.scripts.append(p)
    ctx.cov["parts"].append("%s: %d worlds, compared in %d families of %d" % (cfg, n, k, size))


def clone(w):
    return json.loads(json.dumps(w))


def random_world(r, n):
    ids = r.sample(IDS, min(n, len(IDS)))
    W = {"meta": {"version": r.choice([0, 1, 2, 9, 10, 11, 12, 99, 100, 257, 1000, 2147483646]), "id": r.choice(["w", "x y"]), "name": r.choice(VALS), "expanded": r.choice(VALS)}, "items": [], "rels": []}
    def rec(rel):
        z = {"verb": "", "mechanism": "", "async": False, "expanded": ""} if rel else {"name": "", "type": "", "mechanism": "", "expanded": "", "external": False}
        for k, v in params(r, rel):
            z[k] = v == "true" if k in ("external", "async") else v
        return z
    for i, x in enumerate(ids):
        W["items"].append({"id": x, "a": rec(False), "par": r.choice([""] + ids[:i])})
    prs = [(x, y) for x in ids for y in ids]
    for x, y in r.sample(prs, min(len(prs), r.choice([0, 1, 3, 6]))):
        W["rels"].append({"from": x, "to": y, "a": rec(True)})
    return W


def inside(w, x, a):
    par = {i["id"]: i["par"] for i in w["items"]}
    while x:
        if x == a:
            return True
        x = par[x]
    return False


def differ(r, w):
    """w with one thing changed."""
    for _ in range(50):
        v = clone(w)
        k = r.choice(["meta", "attr", "attr", "attr", "shift", "place", "place", "add", "drop", "radd", "rdrop", "rattr", "rattr", "rshift", "reverse", "swap", "rename", "case"])
        its, rs = v["items"], v["rels"]
        if k == "meta":
            f = r.choice(["version", "id", "name", "expanded"])
            v["meta"][f] = v["meta"][f] + 1 if f == "version" else v["meta"][f] + r.choice(["x", " ", "."])
        elif k in ("attr", "rattr") and (rs if k == "rattr" else its):
            a = r.choice(rs if k == "rattr" else its)["a"]
            f = r.choice(sorted(a))
            a[f] = (not a[f]) if isinstance(a[f], bool) else r.choice([t for t in TYPES + [""] if t != a[f]]) if f == "type" else r.choice([a[f] + "x", a[f] + " ", "" if a[f] else "y"])
        elif k in ("shift", "rshift") and (rs if k == "rshift" else its):
            a = r.choice(rs if k == "rshift" else its)["a"]
            f, g = r.sample(["verb", "mechanism", "expanded"] if k == "rshift" else ["name", "mechanism", "expanded"], 2)
            a[f], a[g] = a[g], a[f]
        elif k == "place" and its:
            i = r.choice(its)
            to = r.choice([""] + [j["id"] for j in its])
            if to and inside(v, to, i["id"]):
                continue
            i["par"] = to
        elif k == "add":
            its.append({"id": "fresh", "a": random_world(r, 1)["items"][0]["a"], "par": r.choice([""] + [j["id"] for j in its])})
        elif k == "drop" and its:
            x = r.choice(its)
            if any(j["par"] == x["id"] for j in its) or any(x["id"] in (q["from"], q["to"]) for q in rs):
                continue
            its.remove(x)
        elif k == "radd" and its:
            x, y = r.choice(its)["id"], r.choice(its)["id"]
            if any((q["from"], q["to"]) == (x, y) for q in rs):
                continue
            rs.append({"from": x, "to": y, "a": {"verb": "", "mechanism": "", "async": False, "expanded": ""}})
        elif k == "rdrop" and rs:
            rs.remove(r.choice(rs))
        elif k == "reverse" and rs:
            q = r.choice(rs)
            if any((z["from"], z["to"]) == (q["to"], q["from"]) for z in rs):
                continue
            q["from"], q["to"] = q["to"], q["from"]
        elif k == "swap" and len(its) > 1:
            a, b = r.sample(its, 2)
            a["a"], b["a"] = b["a"], a["a"]
        elif k == "rename" and its:
            i = r.choice(its)
            old, new = i["id"], i["id"] + "2"
            for j in its:
                j["id"], j["par"] = (new if j["id"] == old else j["id"]), (new if j["par"] == old else j["par"])
            for q in rs:
                q["from"], q["to"] = (new if q["from"] == old else q["from"]), (new if q["to"] == old else q["to"])
        elif k == "case" and its:
            a = r.choice([x["a"] for x in its + rs] + [v["meta"]])
            f = r.choice([f for f in a if f in ("name", "expanded", "mechanism", "verb", "id")])
            how = r.choice([str.swapcase, str.swapcase, str.strip, lambda t: t[::-1], lambda t: "".join(sorted(t)), lambda t: t.replace(" ", "")])
            a[f] = how(a[f])
        else:
            continue
        if v != w:
            return v
    return clone(w)


def randoms(ctx, n, size, seed):
    r = random.Random(ctx.seed * 1000 + seed)
    p = ctx.path("eq.ndjson")
    with open(p, "w") as f:
        for i in range(n):
            base = random_world(r, r.choice([0, 1, 2, 3, 5, 8]))
            ws = [base, base, base] + [differ(r, base) for _ in range(size - 3)]
            ws += [differ(r, ws[-1]), differ(r, ws[-2])]
            family(ctx, r, ws, "random-%d" % i, f)
    ctx.scripts.append(p)
    ctx.cov["parts"].append("random families of worlds with single differences: %d of %d" % (n, size + 2))


def large(ctx, n, size):
    """Worlds with many items and relationships, the same or different in one place: early, late, deep or wide."""
    r = random.Random(ctx.seed + 6)
    p = ctx.path("eq.ndjson")
    with open(p, "w") as f:
        for k in range(n):
            ids = ["i%03d" % i for i in range(size)]
            base = {"meta": {"version": 1, "id": "w", "name": "w", "expanded": ""}, "items": [], "rels": []}
            for i, x in enumerate(ids):
                # a chain, a bush, and the rest at random
                par = ids[i - 1] if 0 < i < size // 3 else ids[size // 3] if size // 3 < i < 2 * size // 3 else r.choice([""] + ids[:i])
                base["items"].append({"id": x, "a": {"name": "", "type": "", "mechanism": "", "expanded": "", "external": False}, "par": par})
            joined = ids[:size // 2] + ids[-1:]   # the others have no relationships
            for x in joined:
                for y in r.sample(joined, r.choice([1, 2, 3])) + ([ids[0]] if x == ids[-1] else []):
                    if not any((q["from"], q["to"]) == (x, y) for q in base["rels"][-3:]):
                        base["rels"].append({"from": x, "to": y, "a": {"verb": "", "mechanism": "", "async": False, "expanded": ""}})
            ws = [base, base]
            for at in (0, size // 2, size - 2, size - 1):
                w = clone(base)
                w["items"][at]["a"][r.choice(["name", "mechanism", "expanded"])] = "other"
                ws.append(w)
                w = clone(base)
                i = -1 if at == size - 1 else r.randrange(len(w["rels"]))
                w["rels"][i]["a"][r.choice(["verb", "mechanism", "expanded"])] = "other"
                ws.append(w)
            w = clone(base)
            w["items"][-1]["par"] = r.choice([x for x in ids[:-1] if x != w["items"][-1]["par"]])
            ws.append(w)
            w = clone(base)
            w["items"][size // 3 - 1]["par"] = ""
            ws.append(w)
            w = clone(base)
            w["rels"].pop(r.choice([0, -1]))
            ws.append(w)
            family(ctx, r, ws, "large-%d" % k, f, most=60, reps=1)
    ctx.scripts.append(p)
    ctx.cov["parts"].append("%d families of worlds with %d items that differ in one place" % (n, size))


NEAR = ["none", "null", "-", "n.a.", "z" * 300, "z" * 299 + "y", "y" + "z" * 299, "", "x", "X", " x", "x ", "x x", "xx", "x  x", "y", "0", "00", "nil", "x.", "x,x", "x=x"]

LONG = ["long " * 14000, "long " * 13999 + "lone ", "lone " + "long " * 13999, "long " * 13999]


def near_values(ctx):
    """For every text of a world, a family of worlds alike but for that text, over values that are nearly the same; and for every type."""
    r = random.Random(ctx.seed + 5)
    p, n = ctx.path("eq.ndjson"), 0
    with open(p, "w") as f:
        for where in ["meta.id", "meta.name", "meta.expanded", "item.id", "item.name", "item.mechanism", "item.expanded", "item.type", "inner.id", "inner.name", "inner.mechanism",
                      "inner.expanded", "inner.type", "rel.verb", "rel.mechanism", "rel.expanded", "loop.verb"]:
            base = random_world(r, r.choice([3, 4, 5]))
            its = base["items"]
            for i, x in enumerate(its):
                its[i]["par"] = its[0]["id"] if i == 1 else "" if i == 0 else x["par"]
            ends = {"rel": (its[0]["id"], its[2]["id"]), "loop": (its[1]["id"], its[1]["id"])}
            what, k = where.split(".")
            if what in ends:
                base["rels"] = [q for q in base["rels"] if (q["from"], q["to"]) != ends[what]] + [
                    {"from": ends[what][0], "to": ends[what][1], "a": {"verb": "", "mechanism": "", "async": False, "expanded": ""}}]
            ws = []
            for v in TYPES + [""] if k == "type" else [v for v in NEAR if v != "" or k != "id"] + (LONG if where in ("meta.name", "item.expanded", "rel.verb") else []):
                w = clone(base)
                if what == "meta":
                    w["meta"][k] = v
                elif what in ends:
                    w["rels"][-1]["a"][k] = v
                else:
                    i = w["items"][what == "inner"]
                    if k == "id":
                        old, v = i["id"], "k" + v + "k"
                        if any(j["id"] == v for j in w["items"]):
                            continue
                        for j in w["items"]:
                            j["id"], j["par"] = (v if j["id"] == old else j["id"]), (v if j["par"] == old else j["par"])
                        for q in w["rels"]:
                            q["from"], q["to"] = (v if q["from"] == old else q["from"]), (v if q["to"] == old else q["to"])
                    else:
                        i["a"][k] = v
                ws.append(w)
            n += 1
            family(ctx, r, ws + ws[:3], "near-%s" % where, f, most=800, reps=1)
    ctx.scripts.append(p)
    ctx.cov["parts"].append("%d families of worlds that differ in one text only, over nearly equal values" % n)


def c17(ctx):
    T = ctx.thorough
    ctx.model_check("Equal_pairs0", module="Equal")
    if T:
        ctx.model_check("Equal_pairs", module="Equal", workers=4)
        ctx.model_check("Equal_pairsmeta", module="Equal", workers=4)
    small(ctx, "Equal_small", 24, 40 if not T else 1000)
    small(ctx, "Equal_meta", 24, 12 if not T else 1000)
    if T:
        small(ctx, "Equal_wide", 30, 1500)
    near_values(ctx)
    large(ctx, 1 if not T else 4, 130 if not T else 300)
    randoms(ctx, 60 if not T else 3000, 14, 1)
    ctx.flush(["C17"], module="EqualTrace")
