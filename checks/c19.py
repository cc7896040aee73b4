from vf import beh
from checks.zmlgen import S, codes
from checks.c25 import A


def run(ctx):
    exe = ctx.build("path")
    q = ctx.quick
    ARGS = ["", "b", ".x", "b.y", "/b", "c/d", "\\", "..", "x.y.z", "c:"]

    def paths(alpha, n):
        def go():
            r = ctx.explore("Path", consts={"Alpha": A(alpha), "PathLen": n, "Args": S(*ARGS)}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"every path of up to {n} of {alpha!r}")
        return go

    def traces():
        r = ctx.rng
        ops = []

        def rp():
            t = "".join(r.choice(["a", "bc", "file", ".", ".", "..", "/", "/", "\\", ".txt", "dir.d/", "~", "c:", " ", "\xe9"]) for _ in range(r.randrange(9)))
            return codes(t)
        for _ in range(3000 if q else 30000):
            op = r.choice(["parts", "parts", "join", "rext", "rfile", "rstem", "cstem", "cmp"])
            o = {"op": op, "s": rp()}
            if op != "parts":
                o["x"] = rp() if r.random() < 0.7 else o["s"]
            ops.append(o)
        tr = ctx.record(exe, [{"ops": ops}])
        ctx.validate("PathTrace", tr, exe=exe, label="paths", timeout=850)

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "parts" and e["ret"]["v"]["ext"])
            c = [dict(e) for e in t[:i + 1]]
            c[i] = {**c[i], "ret": {"ok": True, "v": {**c[i]["ret"]["v"], "ext": []}}}
            yield c
        ctx.binding_check("PathTrace", tr, corrupt)
    k = 0 if q else 1
    ctx.par(traces, paths("a./", 6 + k), paths("a./\\", 5 + k), paths("a.:/~", 4 + k))
    ctx.need_ops(["parts", "join", "rext", "rfile", "rstem", "cstem", "cmp"])
