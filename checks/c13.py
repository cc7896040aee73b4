def w(f, v, m, good=True):
    return {"op": "write", "f": f, "v": v, "m": m, "good": good}


def d(f):
    return {"op": "delete", "f": f}


def t(n):
    return {"op": "tick", "d": n}


def sequential(ctx, n):
    """One thread: any history of requests, changes, failures and clock steps."""
    r = ctx.rng
    out = []
    for _ in range(n):
        ops, v = [], 10
        for _ in range(r.randrange(3, 40)):
            v += 1
            f = r.choice([1, 1, 1, 2, 3])
            ops.append(r.choice([f, f, f, w(f, v, v, r.random() < 0.75), d(f), t(r.choice([1, 2, 3, 4, 10])), t(r.choice([3, 4]))]))
        out.append({"op": "cache", "threads": [ops], "env": [], "before": [w(i, i, i) for i in (1, 2, 3) if r.random() < 0.7], "bound": 0, "max": 1})
    return out


def concurrent(q):
    out = []
    b1 = [w(1, 1, 1)]
    envs = [[], [w(1, 2, 2)], [w(1, 2, 2), t(4)], [t(4), w(1, 2, 2)], [t(4), w(1, 2, 2, False)], [w(1, 2, 2, False), t(4)], [d(1), t(4)], [t(4), d(1)],
            [t(4), w(1, 2, 2, False), w(1, 3, 3)], [t(4), t(4)], [w(1, 2, 2), t(4), w(1, 3, 3)]]
    for before in (b1, [], [w(1, 1, 1, False)]):
        for env in envs:
            for th in ([[1], [1]], [[1, 1], [1]]) if q else ([[1], [1]], [[1, 1], [1]], [[1, 1], [1, 1]], [[1], [1], [1]]):
                if q and before != b1 and (len(env) > 2 or th != [[1], [1]]):
                    continue
                out.append({"op": "cache", "threads": th, "env": env, "before": before, "bound": 2, "max": 150 if q else 2500})
    # already cached and due: both threads look again
    for env in envs:
        for th in ([[1, t(4), 1], [1]], [[1, t(4), w(1, 5, 5), 1], [1, 1]], [[1, w(1, 5, 5), t(4), 1], [t(4), 1]], [[1, t(4), w(1, 5, 5, False), 1, w(1, 6, 6), 1], [1]]):
            if q and len(env) > 2:
                continue
            out.append({"op": "cache", "threads": th, "env": env, "before": b1, "bound": 2, "max": 150 if q else 2500})
    for th in ([[1, 2], [2, 1]], [[1], [2], [1]]):
        out.append({"op": "cache", "threads": th, "env": [t(4), w(1, 3, 3)], "before": [w(1, 1, 1), w(2, 2, 2)], "bound": 2, "max": 500 if q else 5000})
    return out


def run(ctx):
    exe = ctx.build("file_cache")
    q = ctx.quick

    def model():
        ctx.explore("CacheAlg", consts={"NC": 2, "NE": 1} if q else {"NC": 2, "NE": 4}, timeout=850)

    def wrong():
        for v in ("no_recheck", "time_first", "no_write_lock"):
            ctx.refute("CacheAlg", {"Variant": f'"{v}"', "NE": 2})

    def seq():
        ctx.schedules(exe, sequential(ctx, 300 if q else 5000), "CacheEvTrace", label="one thread")

    def conc():
        tr = ctx.schedules(exe, concurrent(q), "CacheEvTrace", label="threads and changing files")

        def corrupt(tr):
            i = next(k for k, e in enumerate(tr) if e["op"] == "ret" and e["v"] > 1)
            s = i
            while tr[s]["op"] != "reset":
                s -= 1
            yield tr[s:i] + [{**tr[i], "v": tr[i]["v"] - 1}]
            i = next(k for k, e in enumerate(tr) if e["op"] == "end")
            s = i
            while tr[s]["op"] != "reset":
                s -= 1
            j = next(k for k in range(i, len(tr)) if tr[k]["op"] == "ret")
            yield tr[s:j + 1] + [{"op": "call", "t": tr[j]["t"], "f": 1}, {"op": "begin", "t": tr[j]["t"], "f": 1}]
        ctx.binding_check("CacheEvTrace", tr, corrupt)
    ctx.par(model, wrong, seq, conc, lambda: ctx.races(["cache"]))
    ctx.need_ops("call begin end throw ret exc write delete tick final scenario".split())
