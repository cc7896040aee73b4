from vf import beh
OPS = {
    "fmap": "insert insert_rv index assign at cat cindex erase_key erase_at find lower upper count contains clear copy move reserve",
    "fset": "insert insert_rv erase_key erase_at find lower upper count contains clear copy move reserve",
    "svec": "insert erase_at remove find clear copy move reserve",
    "imap": "insert index assign cindex erase_at find find_from count contains push_back clear copy move reserve",
    "iset": "get_or_add try_get clear copy move",
}
RARE = {"clear": 0.03, "copy": 0.2, "move": 0.2, "reserve": 0.2}


def segments(ctx, n, length):
    r = ctx.rng
    segs = []
    for j in range(n):
        kind = list(OPS)[j % 5]
        names = OPS[kind].split()
        w = [RARE.get(x, 3 if x.startswith(("insert", "get_or", "push")) else 1) for x in names]
        nk = r.choice([4, 10, 30])
        l = []
        if kind != "iset":
            l = [[r.randrange(nk), 0 if kind in ("fset", "svec") else r.randrange(1, 9)] for _ in range(r.randrange(6))]
        ops, size = [], len(l)   # size: upper bound only; the driver clips positions
        for _ in range(length):
            op = r.choices(names, w)[0]
            o = {"op": op, "k": r.randrange(nk), "v": 0 if kind in ("fset", "svec") else r.randrange(1, 9)}
            if op in ("erase_at", "find_from"):
                continue        # positions need the size: exercised by the specification's behaviours
            if op == "get_or_add":
                o["limit"] = 255
            ops.append(o)
        segs.append({"init": {"kind": kind, "l": l}, "ops": ops})
    return segs


def run(ctx):
    exe = ctx.build("assoc", lib=True)
    big = {} if ctx.quick else {"K": "{1, 2, 3, 4}", "MaxSize": 4, "V": "{0, 7, 8}"}
    init = {"Kinds": '{"fmap", "fset", "svec", "imap"}', "MaxInit": 3 if ctx.quick else 4, "MaxLen": 1, "MaxSize": 5,
            "K": "{1, 2}" if ctx.quick else "{1, 2, 3}", "V": "{0, 7}"}
    for c in (big, init):
        r = ctx.explore("Assoc", consts=c, timeout=800)
        ctx.replay(exe, beh(ctx.emitted(r)), f"every transition {c}")
    r = ctx.simulate("Assoc", "AssocSim.cfg", num=60 if ctx.quick else 1500, depth=52, timeout=800)
    ctx.replay(exe, beh(ctx.emitted(r)), "long runs")
    segs = segments(ctx, 25 if ctx.quick else 200, 120)
    # longer initial lists, with a few different keys
    for j in range(60 if ctx.quick else 600):
        kind, r = list(OPS)[j % 4], ctx.rng
        l = [[r.randrange(r.choice([2, 5])), 0 if kind in ("fset", "svec") else r.randrange(1, 9)] for _ in range(r.randrange(3, 12))]
        segs.append({"init": {"kind": kind, "l": l}, "ops": [{"op": o, "k": r.randrange(5), "v": 0} for o in ("insert", "find", "contains", "move", "insert", "copy") if o in OPS[kind].split()]})
    # the index type of the set overflows: 300 distinct values
    segs.append({"init": {"kind": "iset", "l": []},
                 "ops": [{"op": o, "k": i, "limit": 255} for i in list(range(250, 260)) + list(range(250)) + [5, 300, 301, 300, 251]
                         for o in ("get_or_add",)] + [{"op": "try_get", "k": k} for k in (0, 258, 259, 300, 301)]})
    tr = ctx.record(exe, segs)
    ctx.validate("AssocTrace", tr, exe=exe, label="recorded runs")

    def corrupt(t):
        i = next(k for k, e in enumerate(t) if e["op"] == "lower")
        c = [dict(e) for e in t[:i + 1]]
        c[i] = {**c[i], "ret": {"ok": True, "v": {"m": 0, "c": 77}}}
        yield c
    ctx.binding_check("AssocTrace", tr, corrupt)
    ctx.need_ops(set(" ".join(OPS.values()).split()))
