"""Generated graph configuration: excludes and implied actions."""
NEW = ["ia", "ib", "ic"]


def names_pool(g, p):
    names = [m["name"] for m in p["mods"]]
    k = g.weighted([("mod", 8), ("new", 5), ("sub", 3), ("missing", 2), ("leaf", 1)])
    if k == "mod":
        return g.pick(names)
    if k == "new":
        return g.pick(NEW)
    if k == "sub":
        return g.pick(names) + "." + g.pick(["ia", "sa", "zz"])
    if k == "missing":
        return g.pick(["zza", "zzb.sa"])
    return g.pick(["errno", "gc"])


def gen_implies(g, p, most=3, kinds=(("list", 3), ("alias", 4), ("virtual", 2))):
    out = {}
    for _ in range(g.int(0, most)):
        k = g.weighted(list(kinds))
        name = names_pool(g, p)
        if k == "list":
            out[name] = [names_pool(g, p) for _ in range(g.int(0, 2))]
        else:
            out[name] = {"kind": k, "target": names_pool(g, p)}
    return out


def gen_excludes(g, p, most=3):
    return [names_pool(g, p) for _ in range(g.int(0, most))]


def config(g, p, implies=2, excludes=2, **kw):
    p["implies"] = gen_implies(g, p, implies, **kw)
    p["excludes"] = gen_excludes(g, p, excludes)


def alias_chain(g, p):
    """An alias, directly or by way of others, for a package that has modules, and imports of names in it."""
    kids = {}
    for m in p["mods"]:
        parent, _, name = m["name"].rpartition(".")
        if parent:
            kids.setdefault(parent, []).append(name)
    users = [m for m in p["mods"] if m["kind"] in ("mod", "pkg")] + p["scripts"]
    if not kids or not users:
        return
    target = g.pick(sorted(kids))
    first = g.int(0, 2)
    chain = [NEW[(first + i) % 3] for i in range(g.int(1, 3))]
    implies = p.setdefault("implies", {})
    for a, b in zip(chain, chain[1:] + [target]):
        implies[a] = {"kind": "alias", "target": b}
    for _ in range(g.int(1, 2)):
        m = g.pick(users)
        names = [g.pick([*kids[target], *kids[target], "va", "zz"]) for _ in range(g.int(1, 2))]
        stmt = ["star", 0, chain[0]] if g.chance(10) else ["frm", 0, chain[0], [[n, None] for n in dict.fromkeys(names)]]
        m["body"] = [*(m.get("body") or []), stmt]
