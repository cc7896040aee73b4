from vf import beh


def run(ctx):
    exe = ctx.build("memoize", lib=False)
    q = ctx.quick

    def model():
        ctx.explore("MemoAlg", consts={"NT": 2, "NC": 3, "Args": "{1, 2}"} if q else {"NT": 3, "NC": 2, "Args": "{1, 2}"}, timeout=850)

    def wrong():
        for v in ("no_recheck", "compute_unlocked", "entry_first", "lost_unlock"):
            ctx.refute("MemoAlg", {"Variant": f'"{v}"'})

    def real():
        r = ctx.explore("MemoScen", consts={"MaxCalls": 2} if q else {"MaxCalls": 2, "NT": 3, "Args": "{1}"})
        sc = [{"op": "safe", **s, "bound": 2 if q else 3, "max": 1500 if q else 6000} for s in ctx.emitted(r)]
        # three threads
        for th in ([], [1], [1, 1]):
            for calls in ([[1], [1], [1]], [[1, 2], [2, 1], [1]], [[1], [2], [1, 0]]):
                sc.append({"op": "safe", "calls": calls, "throws": th, "bound": 2, "max": 1500 if q else 20000})
        if not q:
            r = ctx.explore("MemoScen", consts={"MaxCalls": 2, "NT": 2, "Args": "{1, 2}", "Throwing": "{1, 2}"})
            sc += [{"op": "safe", **s, "bound": 3, "max": 3000} for s in ctx.emitted(r)]
        tr = ctx.schedules(exe, sc, "MemoEvTrace", label="memoize_thread_safe")

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "begin")
            e = next(k for k in range(i, len(t)) if t[k]["op"] == "reset")
            s = i
            while t[s]["op"] != "reset":
                s -= 1
            yield t[s:i + 1] + t[i:e]
            j = next(k for k in range(i, e) if t[k]["op"] == "ret")
            yield t[s:j] + [{**t[j], "v": t[j]["v"] + 1}] + t[j + 1:e]
        ctx.binding_check("MemoEvTrace", tr, corrupt)

    def plain():
        r = ctx.rng
        sc = []
        for _ in range(150 if q else 3000):
            sc.append({"op": "plain", "calls": [[r.choice([0, 1, 2, 3, 4, 6, 9, -3]) for _ in range(r.randrange(1, 12))]],
                       "throws": [r.choice([1, 2, 3, 4]) for _ in range(r.choice([0, 0, 1, 2, 3]))], "bound": 0, "max": 10})
        ctx.schedules(exe, sc, "MemoEvTrace", label="memoize (one thread, recursive function)")
    ctx.par(model, wrong, real, plain, lambda: ctx.races(["memo"]))
    ctx.need_ops("call begin end throw ret exc size_call size_ret final scenario".split())
