from vf import beh
from checks.zmlgen import S, codes


def run(ctx):
    exe = ctx.build("args")
    q = ctx.quick

    def ex(words, n, names):
        def go():
            r = ctx.explore("Args", consts={"Words": S(*words), "Names": S(*names), "MaxArgs": n}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"every command line of up to {n} of {words}")
        return go

    def traces():
        r = ctx.rng
        ops = []
        for _ in range(1500 if q else 20000):
            w = ["".join(r.choice(["-", "-", "--", "a", "b", "ab", "=", "1", "42", " ", "", "#1", "."]) for _ in range(r.randrange(4))) for _ in range(r.randrange(8))]
            a = [codes(x) for x in w]
            f = codes(r.choice([x.lstrip("-") for x in w] + ["", "a", "zz"]))
            ops += [{"op": "opt", "a": a, "f": f}, {"op": "pos", "a": a, "n": r.randrange(9)}, {"op": "words", "a": a}, {"op": "tree", "a": a}]
        tr = ctx.record(exe, [{"ops": ops}])
        ctx.validate("ArgsTrace", tr, exe=exe, label="command lines", timeout=850)

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "tree" and len(e["ret"]["v"]["c"]) > 1)
            c = [dict(e) for e in t[:i + 1]]
            c[i] = {**c[i], "ret": {"ok": True, "v": {**c[i]["ret"]["v"], "c": c[i]["ret"]["v"]["c"][::-1]}}}
            yield c
        ctx.binding_check("ArgsTrace", tr, corrupt)
    k = 0 if q else 1
    ctx.par(traces, ex(["-a", "--a", "-b", "a", "5", "-", ""], 4 + k, ["a", "b", ""]), ex(["-a", "-ab", "--", "---a", "-a=1", "x y", "-5", "+7", "a-"], 3 + k, ["a", "ab", "", "5", "a=1", "-a"]))
    ctx.need_ops(["opt", "pos", "words", "tree"])
    ctx.assumptions.append("an option value that is no number has no specified numeric reading")
