from vf import beh
from checks.zmlgen import S, codes
from checks.c25 import A


def run(ctx):
    exe = ctx.build("version")
    q = ctx.quick

    def ex(label, **c):
        def go():
            r = ctx.explore("Version", consts=c, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), label)
        return go

    def traces():
        r = ctx.rng
        ops = []

        def rv(post=True):
            n = lambda: r.choice([0, 0, 1, 2, 9, 10, 11, 255, 100000, 2147483647])
            return {"a": n(), "b": n(), "c": n(), "d": n(), "p": codes(r.choice(["", "", "beta", " x", "5", ".1", "rc 1", "x" * 300])) if post else []}
        for _ in range(1500 if q else 20000):
            v, w = rv(), rv()
            for k in "abcd":
                if r.random() < 0.6:
                    w[k] = v[k]
            ops += [{"op": "text", "v": v}, {"op": "cmp", "v": v, "w": w}, {"op": "atleast", "v": v, "w": w},
                    {"op": "read", "s": codes("".join(r.choice(["1", "20", "3", ".", ".", ".", " ", "x", "-1", "beta", "\t"]) for _ in range(r.randrange(10))))}]
        tr = ctx.record(exe, [{"ops": ops}])
        ctx.validate("VersionTrace", tr, exe=exe, label="versions", timeout=850)

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "cmp" and e["ret"]["v"]["c"] == -3)
            c = [dict(e) for e in t[:i + 1]]
            c[i] = {**c[i], "ret": {"ok": True, "v": {**c[i]["ret"]["v"], "c": 3}}}
            yield c
        ctx.binding_check("VersionTrace", tr, corrupt)
    ctx.par(traces,
            ex("text of every version", Mode='"text"', Nums="{0, 1, 9, 10, 123}", Builds="{0, 1, 12}", Posts=S('', 'b', ' b', '5', '.5', 'a b', '\t')),
            ex("every pair of versions", Mode='"cmp"', Nums="{0, 1, 2}" if q else "{0, 1, 2, 3}", Builds="{0, 1, 2}" if q else "{0, 1, 2, 3}"),
            ex("every text", Mode='"read"', Alpha=A("1.2 x-"), StrLen=5 if q else 7))
    ctx.need_ops(["text", "read", "cmp", "atleast"])
    ctx.assumptions.append("components are non-negative 32-bit integers")
