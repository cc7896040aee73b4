from vf import beh
from checks.zmlgen import rtree, codes

ALPHA = "{97, 32, 10, 9, 13, 34, 39, 92, 123, 125, 91, 93, 35, 47, 42, 60, 62, 61, 58, 36, 64, 46, 0, 1, 31, 127, 195, 255, 48}"


def run(ctx):
    exe = ctx.build("zml")
    q = ctx.quick

    def shapes(c):
        r = ctx.explore("ZmlTrees", consts=c, timeout=800)
        ctx.replay(exe, beh(ctx.emitted(r)), f"trees {list(c)}")

    def traces():
        r = ctx.rng
        segs = []
        for _ in range(20 if q else 150):
            ops = []
            for _ in range(12):
                n = rtree(r, r.choice([1, 2, 3, 4]))
                for w in ("pretty", "concise"):
                    ops.append({"op": "write", "n": n, "w": w})
                    ops.append({"op": "round", "n": n, "w": w})
                ops.append({"op": "round", "n": n, "w": "file"})
            segs.append({"ops": ops})
        tr = ctx.record(exe, segs)
        ctx.validate("ZmlTrace", tr, exe=exe, label="written text read by the specification", timeout=800)

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "write" and e["ret"]["ok"] and len(e["ret"]["v"]) > 6)
            c = [dict(e) for e in t[:i + 1]]
            c[i] = {**c[i], "ret": {"ok": True, "v": c[i]["ret"]["v"][:-3]}}
            yield c
        ctx.binding_check("ZmlTrace", tr, corrupt)
    jobs = [{"MaxNodes": 4 if q else 5, "Emits": '"files"'},
            {"MaxNodes": 4, "K": "{<<>>, <<61>>, <<97, 32>>}", "V": "{<<>>, <<123>>}"},
            {"MaxNodes": 3 if q else 4, "K": "{<<97>>, <<93>>, <<97, 58>>, <<39>>}", "V": "{<<>>, <<47, 47>>, <<93>>, <<34, 97>>}"},
            {"Alpha": ALPHA, "StrLen": 2}]
    if not q:
        jobs.append({"Alpha": "{97, 34, 92, 48, 39, 123, 32, 1}", "StrLen": 4})
    ctx.par(traces, *[lambda c=c: shapes(c) for c in jobs])
    ctx.need_ops(["round", "write", "parse"])
    ctx.assumptions.append("strings that ZML defines as macro or reference ('$..', '@..', '${') are outside the writer's domain")
