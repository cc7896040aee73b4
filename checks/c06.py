from vf import beh
from checks.zmlgen import S, C, codes

N2 = S("a.zml", "d/b.zml")
N3 = S("a.zml", "d/b.zml", "d/c.zml")
# the same text is a body of every file: a target means another file in another folder
T = ["d/b.zml", "b.zml", "../a.zml", "c.zml", "/a.zml", "/d/c.zml"]
ZBODY = ['', 'x=1', 'g { y=2 << %s >> }', '<< %s >> z=@x', 'x { << %s >> }', '[ << %s >>', '<< "%s" >> << %s >>', '$m=5 << %s >> q=$m']
IBODY = ['x=1', 'r { x=1 y=2 }', 'I { file="%s" }', 'I { file="%s" merge_children=true } x { v=9 }', 'r { I { file=%s merge_children=1 } x=3 I { file=%s merge_children=0 } }', 'I { merge_children=0 }', 'r { q [ 1 2 ] } I { file="%s" }']


def fill(b, targets):
    out = []
    for t in targets:
        x = b
        while "%s" in x:
            x = x.replace("%s", t, 1)
        if "file=" in x and '"' not in x:
            x = x.replace(t, '"' + t + '"')
        if x not in out:
            out.append(x)
    return out


def menu(bodies, targets):
    return S(*dict.fromkeys(x for b in bodies for x in fill(b, targets)))


def worlds(ctx, n):
    r = ctx.rng
    names = ["a.zml", "b.zml", "d/b.zml", "d/c.zml", "d/e.zml"]
    segs = []
    for k in range(n):
        fs = r.sample(names, r.choice([2, 3, 4, 5]))
        low = r.random() < 0.7   # mostly files that only include later ones
        files = []
        d = r.choice(["INCLUDE", "INCLUDE", "use"])

        def target(f):
            c = [g for g in fs if fs.index(g) > fs.index(f)] if low else fs
            g = r.choice(c) if c and r.random() < 0.93 else r.choice(["none.zml", "folder.zml", "", "d"])
            if f.startswith("d/"):
                g = g[2:] if g.startswith("d/") else "../" + g
            return r.choice(["", "", "./", "d/../" if not f.startswith("d/") else "../d/"]) + g if g else g

        def item(f, depth):
            x = r.random()
            if x < 0.3:
                t = target(f)
                return f'<< "{t}" >>' if r.random() < 0.5 or not t else f"<< {t} >>" if "#" not in t else ""
            if x < 0.45:
                return f'{d} {{ file = "{target(f)}"' + r.choice(["", "", " merge_children = true", " merge_children = 1", " merge_children = 0", " merge_children = maybe" if r.random() < 0.2 else ""]) + " }"
            if x < 0.6 and depth:
                return r.choice("xyzr") + " { " + " ".join(item(f, depth - 1) for _ in range(r.choice([0, 1, 2]))) + " }"
            if x < 0.65:
                return r.choice("xyz") + " [ 1 [ 2 ] ]"
            if x < 0.7:
                return "$m = 4 q = $m"
            if x < 0.74:
                return "q = @" + r.choice("xyz")
            return f"{r.choice('xyzr')} = {r.choice(['1', '2', 'text', '7'])}"
        for f in fs:
            single = r.random() < 0.5
            body = " ".join(item(f, 2) for _ in range(r.choice([0, 1, 2, 3])))
            if single:
                body = "root = 5 { " + body + " }"
            if r.random() < 0.04:
                body += r.choice([" }", " {", ' "', " << ", " [ << x.zml"])
            files.append({"f": codes(f), "s": codes(body)})
        ops = []
        for f in fs + ([r.choice(["none.zml", "folder.zml", "d"])] if r.random() < 0.2 else []):
            ops += [{"op": "zml", "f": codes(f)}, {"op": "inc", "f": codes(f), "d": codes(d)}, {"op": "included", "f": codes(f), "fs": [codes(g) for g in fs]}]
        ops.append({"op": "text", "s": files[0]["s"]})
        segs.append({"init": {"files": files}, "ops": ops})
    # long chains: they may be up to 100 files deep
    for m in (99, 100, 101):
        files = [{"f": codes(f"n{i}.zml"), "s": codes(f"INCLUDE {{ file = n{i + 1}.zml }}" if i < m else "r = 1")} for i in range(1, m + 1)]
        files += [{"f": codes(f"z{i}.zml"), "s": codes(f"<< z{i + 1}.zml >> z{i} = 1" if i < m else "r = 1")} for i in range(1, m + 1)]
        segs.append({"init": {"files": files}, "ops": [{"op": "inc", "f": codes("n1.zml"), "d": codes("INCLUDE")}, {"op": "zml", "f": codes("z1.zml")}]})
    # files that reach themselves in many ways
    for m in (2, 4):
        files = [{"f": codes(f"n{i}.zml"), "s": codes(" ".join(f"g {{ << n{j}.zml >> }} INCLUDE {{ file = n{j}.zml }}" for j in range(m)))} for i in range(m)]
        segs.append({"init": {"files": files}, "ops": [{"op": "inc", "f": codes("n0.zml"), "d": codes("INCLUDE")}, {"op": "zml", "f": codes("n0.zml")}]})
    return segs


def run(ctx):
    exe = ctx.build("includes")
    q = ctx.quick

    def every(names, bodies, label):
        def go():
            r = ctx.explore("IncludesMC", consts={"Names": names, "Bodies": bodies}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), label)
        return go

    def long():
        r = ctx.simulate("IncludesMC", consts={"Names": N3, "Bodies": menu(ZBODY + IBODY, T[:4]), "Rich": "TRUE"}, num=20 if q else 100, depth=41, timeout=850)
        ctx.replay(exe, beh(ctx.emitted(r)), "random worlds")

    def traces():
        tr = ctx.record(exe, worlds(ctx, 400 if q else 6000), label="worlds")
        ctx.notes["recorded_loads_that_succeed"] = f"{sum(t['op'] != 'reset' and t['ret']['ok'] for t in tr)} of {sum(t['op'] != 'reset' for t in tr)}"
        ctx.validate("IncludesTrace", tr, exe=exe, label="recorded worlds", timeout=850)

        def corrupt(t):
            for op in ("zml", "inc", "included"):
                i = next(k for k, e in enumerate(t) if e["op"] == op and e["ret"]["ok"] and e["ret"]["v"])
                s = max(k for k in range(i) if t[k]["op"] == "reset")
                v = t[i]["ret"]["v"]
                yield t[s:i] + [{**t[i], "ret": {"ok": True, "v": v[:-1] + [77] if op == "included" else {**v, "v": [7]}}}]
        ctx.binding_check("IncludesTrace", tr, corrupt)
    two, three = ["d/b.zml", "b.zml", "../a.zml", "/a.zml"], ["d/b.zml", "../a.zml", "c.zml"]
    jobs = [every(N2, menu(ZBODY, two), "every two files with << >>"), every(N2, menu(IBODY, two[:3]), "every two files with nodes that name a file"),
            every(N3, menu(ZBODY[1:5] if q else ZBODY, three[:2] if q else three), "every three files with << >>"),
            every(N3, menu(IBODY[:4] if q else IBODY, three[:2] if q else three), "every three files with nodes that name a file")]
    ctx.par(traces, long, *jobs)
    ctx.need_ops(["zml", "inc", "included", "text"])
    ctx.assumptions.append("files do not change while they are read; no symbolic links")
