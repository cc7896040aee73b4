from vf import beh

K = ["a", "b", "", "ab", "c", "#1", "#2", "#x"]
V = ["", "1", "2", "33", "x", "4y", "-5"]
EDITS = ("set_key assign_key set set_value set_tree set_tree_rv set_ints add_child add_tree add_tree_rv add_kv add_value "
         "add_children append append_rv insert merge erase_key erase_at erase_query pop_back clear get_or_add_child "
         "get_or_add_query set_query copy move").split()
LOOKS = ("try_get_child ctry_get_child get_child cget_child get_child_at cget_child_at try_get_any_child get_any_child "
         "has_any_key try_get_query ctry_get_query find_rec find_parent cfind_parent info ends key_info eq").split()
READS = ("is_array get_key get_str get_str_key get_int try_get_int get_int_key get_int_at get_int_def try_get_int_key "
         "try_get_into get_any get_any_def try_get_any get_all get_ints iterate citerate riterate criterate select "
         "select_pattern access set_accessed_rec unaccessed log_unaccessed find_query_to make_query").split()


def lit(r, depth=2):
    n = r.choice([0, 1, 1, 2]) if depth else 0
    return {"v": r.choice(V), "c": [{"k": r.choice(K), "n": lit(r, depth - 1)} for _ in range(n)]}


def rnd_op(r, op):
    o = {"op": op, "t": [r.choice([1, 1, 1, 2, 2, 3]) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]}
    k = r.choice(K)
    d = r.choice([".", "/"])
    o.update(k=k, v=r.choice(V), i=r.choice([1, 1, 2, 3, 4]), q=[r.choice(K) for _ in range(r.choice([1, 2, 2, 3]))], d=d,
             ks=[r.choice(K) for _ in range(r.choice([1, 2, 3]))], p=[r.choice([1, 1, 2, 3]) for _ in range(r.randrange(3))],
             b=r.random() < 0.5, ow=r.random() < 0.5, n=r.randrange(3), pat=r.choice(["*", "a*", "*b", "?", "b"]))
    if op in ("set_ints",):
        o["xs"] = [r.choice(["1", "2", "33", "-5"]) for _ in range(r.randrange(4))]
    if op in ("set_tree", "set_tree_rv", "add_tree", "add_tree_rv", "append", "append_rv", "insert", "merge", "eq"):
        o["x"] = lit(r)
    if op in ("get_int_def", "get_any_def"):
        o["d"] = 77
    use = {"set_key": "kv", "assign_key": "kv", "set": "v", "set_value": "v", "set_tree": "x", "set_tree_rv": "x", "add_child": "k",
           "add_tree": "kx", "add_tree_rv": "kx", "add_kv": "kv", "add_value": "v", "append": "x", "append_rv": "x", "eq": "x",
           "find_rec": "k", "key_info": "k"}.get(op)
    if use:
        o = {a: b for a, b in o.items() if a in ("op", "t") or a in use}
    return o


def segments(r, n, length, groups):
    segs = []
    for _ in range(n):
        w = []
        for g, f in groups:
            w += [(x, f * (0.15 if x in ("clear", "set", "set_tree", "set_tree_rv", "set_ints") else
                           2.5 if x.startswith(("add", "append", "insert", "merge", "set_query")) else 1)) for x in g]
        names, ws = zip(*w)
        ops = []
        size = 0
        for op in r.choices(names, ws, k=length):
            ops.append(rnd_op(r, op))
            if ops[-1]["op"].startswith(("append", "merge", "add", "insert")):
                size += 3
            if size > 60:      # keep trees small enough to compare after every call
                ops.append({"op": "clear", "t": []})
                size = 0
        segs.append({"ops": ops})
    return segs


def corrupt(t):
    i = next(k for k, e in enumerate(t) if e["op"] == "merge" and len(e["obs"]["c"]) > 1)
    c = [dict(e) for e in t[:i + 1]]
    c[i] = {**c[i], "obs": {**c[i]["obs"], "c": c[i]["obs"]["c"][:-1]}}
    yield c
    i = next(k for k, e in enumerate(t) if e["op"] == "get_or_add_query" and e["ret"]["ok"])
    c = [dict(e) for e in t[:i + 1]]
    c[i] = {**c[i], "ret": {"ok": True, "v": [7, 7]}}
    yield c


def run(ctx):
    exe = ctx.build("prop_tree")
    g = '{"edit", "look"}'
    q = ctx.quick
    def graph(c):
        r = ctx.explore("PropTreeMC", "PropTree.cfg", c, timeout=800)
        ctx.replay(exe, beh(ctx.emitted(r)), f"every transition {c}")

    def sim():
        r = ctx.simulate("PropTreeMC", "PropTreeSim.cfg", {"Groups": g}, num=25 if q else 400, depth=32, timeout=800)
        ctx.replay(exe, beh(ctx.emitted(r)), "long runs")

    def traces():
        tr = ctx.record(exe, segments(ctx.rng, 40 if q else 400, 150, [(EDITS, 1.0), (LOOKS, 0.8)]))
        ctx.validate("PropTreeTrace", tr, exe=exe, label="recorded runs", timeout=800)
        ctx.binding_check("PropTreeTrace", tr, corrupt)
    graphs = [{"MaxNodes": 2, "Groups": g}, {"MaxNodes": 6, "MaxLen": 2, "Groups": g, "Delims": '{"/"}'}]
    if not q:
        graphs.append({"MaxNodes": 3, "MaxLen": 3, "Groups": g})
    ctx.par(sim, traces, *[lambda c=c: graph(c) for c in graphs])
    ctx.need_ops(EDITS + LOOKS)
