import json, os
from vf import beh


def V(s="", a=(), **k):
    return {"s": s, "a": list(a), **{x: False for x in "fibvc"}, "n": 0, "x": [], **k}


def segments(ctx, menu, n, length):
    """menu: the (setting, value) pairs of the specification."""
    r = ctx.rng
    segs = []
    for _ in range(n):
        mine = r.sample(menu, min(len(menu), r.choice([3, 8, 20])))
        ids = sorted({i for i, _ in menu})

        def es():
            out = [{"id": i, "v": v} for i, v in (r.choice(mine) for _ in range(r.randrange(6)))]
            # a group that is repeated is a second group in the file; the first is the one that counts
            seen, res = set(), []
            for e in out:
                g = e["id"].split(".")[0] if "." in e["id"] else None
                if g in seen:
                    continue
                if g:
                    seen.add(g)
                res.append(e)
            return res
        ops = [{"op": "open", "f": "f1", "ver": "1.2.3"}]
        for _ in range(length):
            x = r.choice(["set"] * 6 + ["get", "save", "load", "load", "put_file", "rm_file", "reset_all", "open", "save_full"])
            if x == "set":
                i, v = r.choice(mine)
                if not v["a"] or v["v"]:
                    ops.append({"op": x, "id": i, "v": v})
            elif x == "get":
                ops.append({"op": x, "id": r.choice(ids + ["g", "g.zz", "version"])})
            elif x in ("save", "load"):
                ops.append({"op": x, "f": r.choice(["f1", "f2", "f1", "bad"])})
            elif x == "put_file":
                ops.append({"op": x, "f": r.choice(["f1", "f2"]), "broken": r.random() < 0.25, "ver": r.choice(["", "1.2.3", "2.0.1", "abc", "0.9.12"]), "es": es()})
            elif x == "rm_file":
                ops.append({"op": x, "f": r.choice(["f1", "f2"])})
            elif x == "open":
                ops.append({"op": x, "f": r.choice(["f1", "f2", "f1", "bad"]), "ver": r.choice(["1.2.3", ""])})
            else:
                ops.append({"op": x})
        segs.append({"ops": ops})
    return segs


def run(ctx):
    exe = ctx.build("settings")
    q = ctx.quick
    schema = list(ctx.emitted(ctx.explore("Settings", consts={"MaxLen": 0}), "@S"))[0]
    os.environ["VF_SCHEMA"] = os.path.join(ctx.tmp, "schema.json")
    with open(os.environ["VF_SCHEMA"], "w") as fh:
        fh.write(json.dumps(schema) + "\n")

    def every(ids, n):
        def f():
            r = ctx.explore("Settings", consts={"Ids": ids, "MaxLen": n}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"every transition, settings {ids}")
        return f

    def runs():
        r = ctx.simulate("Settings", "SettingsSim.cfg", num=150 if q else 3000, depth=32, timeout=850)
        bs = list(beh(ctx.emitted(r)))
        ctx.replay(exe, bs, "long runs")
        menu = {}
        for b in bs:
            for o in b["ops"]:
                for e in o.get("es", []) + ([o] if o["op"] == "set" else []):
                    menu[json.dumps([e["id"], e["v"]], sort_keys=True)] = (e["id"], e["v"])
        menu = [menu[k] for k in sorted(menu)]
        tr = ctx.record(exe, segments(ctx, menu, 60 if q else 800, 60), label="settings")
        ctx.validate("SettingsTrace", tr, exe=exe, label="recorded runs")

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "set" and e["ret"]["ok"])
            c = [dict(e) for e in t[:i + 1]]
            c[i] = {**c[i], "ret": {"ok": False}}
            yield c
        ctx.binding_check("SettingsTrace", tr, corrupt)
    sets = [('{"a"}', 3), ('{"g.c", "b"}', 3), ('{"t", "g.d"}', 3), ('{"g.h.e", "f"}', 3)] if q else \
           [('{"a"}', 4), ('{"g.c"}', 4), ('{"b", "g.d"}', 4), ('{"g.h.e"}', 4), ('{"f"}', 4), ('{"r"}', 4), ('{"m", "t"}', 3), ('{"a", "g.d", "k"}', 3)]
    ctx.par(runs, *[every(*x) for x in sets])
    ctx.need_ops("open put_file rm_file set get save save_full load reset_all".split())
    ctx.assumptions.append("one process uses the files at a time; ids without '#'; ints within 32 bits; the host is POSIX with /dev/full")
