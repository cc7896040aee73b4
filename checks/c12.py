from vf import beh
from checks.zmlgen import codes
from checks.c25 import A

TRC, DBG, INF, WRN, ERR, CRT = range(1, 7)


class Gen:
    def __init__(self, r):
        self.r, self.id = r, 0

    def m(self, l, n=0, f=0):
        self.id += 1
        return {"op": "msg", "id": self.id, "l": l, "n": n, "f": f}


def add(s):
    return {"op": "add", "s": s}


def rem(s):
    return {"op": "rem", "s": s}


def lvl(s, l):
    return {"op": "lvl", "s": s, "l": l}


def mode(s, all_):
    return {"op": "mode", "s": s, "all": all_}


def test(l):
    return {"op": "test", "l": l}


def get(s):
    return {"op": "get", "s": s}


FLUSH = {"op": "flush"}


def K(*ls):
    return [{"kind": k, "l": l} for k, l in ls]


def scen(sinks, threads, bound=2, mx=150, after=()):
    return {"op": "log", "sinks": sinks, "threads": threads, "after": list(after), "bound": bound, "max": mx}


LENS = [0, 0, 1, 5, 20, 100, 254, 255, 256, 257, 1021, 1022, 1023, 1024, 1025, 2047, 2048, 5000]


def sequential(ctx, n):
    r = ctx.rng
    out = []
    for _ in range(n):
        g = Gen(r)
        ks = [r.choice(["rec", "rec", "rec", "stream", "file"]) for _ in range(r.randrange(1, 4))]
        sinks = K(*[(k, r.randrange(0, 8)) for k in ks])
        if r.random() < 0.3:
            sinks.append({"kind": "console", "l": r.randrange(0, 8)})
        ns = len(sinks)

        def op():
            s = r.randrange(1, ns + 1)
            return r.choice([lambda: g.m(r.randrange(1, 7), r.choice(LENS), r.randrange(5))] * 5 +
                            [lambda: add(s), lambda: rem(s), lambda: lvl(s, r.randrange(0, 8)), lambda: mode(s, r.random() < 0.5),
                             lambda: test(r.randrange(1, 7)), lambda: get(s), lambda: FLUSH])()
        # the threads run one after the other, in any order
        th = [[op() for _ in range(r.randrange(1, 12))] for _ in range(r.randrange(1, 4))]
        out.append(scen(sinks, th, bound=0, mx=6, after=[op() for _ in range(r.randrange(4))]))
    return out


def concurrent(ctx, q):
    r = ctx.rng
    out = []
    mx = 120 if q else 3000

    def sc(sinks, *threads, after=lambda g: []):
        g = Gen(r)
        out.append(scen(sinks, [t(g) for t in threads], mx=mx, after=after(g)))
    two = K(("rec", INF), ("rec", WRN))
    log2 = [lambda g: [g.m(INF), g.m(WRN)], lambda g: [g.m(ERR, 0, 3), g.m(DBG)], lambda g: [g.m(WRN, 30, 2), test(INF)]]
    changes = [lambda g: [rem(1)], lambda g: [rem(2), add(2)], lambda g: [lvl(1, ERR)], lambda g: [lvl(2, TRC)], lambda g: [lvl(1, INF)],
               lambda g: [lvl(2, INF), lvl(1, 7)], lambda g: [rem(1), rem(2)], lambda g: [rem(1), lvl(2, DBG), add(1)], lambda g: [add(1), get(1)],
               lambda g: [lvl(1, INF), g.m(WRN)], lambda g: [rem(1), g.m(INF), add(1), g.m(INF)], lambda g: [mode(1, False), g.m(INF), mode(1, True)],
               lambda g: [FLUSH], lambda g: [g.m(ERR, 0, 4)], lambda g: [rem(1), lvl(1, TRC), test(TRC)]]
    fin = lambda g: [g.m(TRC), g.m(INF), g.m(WRN), test(DBG), test(WRN), get(1), get(2)]
    for a in log2:
        for b in changes:
            sc(two, a, b, after=fin)
    for i, b in enumerate(changes):
        c = changes[(i * 7 + 3) % len(changes)]
        sc(two, lambda g: [g.m(INF)], b, c, after=fin)
        sc(K(("rec", INF)) + K(("rec", 7)), lambda g: [g.m(INF), g.m(INF)], lambda g: [g.m(INF)], b, after=fin)
    # lines
    for k in ("stream", "console", "file"):
        s = K((k, INF), ("rec", WRN))
        sc(s, lambda g: [g.m(INF, 20), g.m(WRN)], lambda g: [g.m(INF, 20), g.m(ERR, 30, 3)])
        sc(s, lambda g: [g.m(INF, 20)], lambda g: [g.m(INF, 20)], lambda g: [g.m(INF, 1500, 2)])
        sc(s, lambda g: [g.m(INF, 20), g.m(INF)], lambda g: [rem(1), add(1)], after=lambda g: [g.m(INF)])
        sc(s, lambda g: [g.m(INF, 20), g.m(INF)], lambda g: [lvl(1, WRN), lvl(1, DBG)], after=lambda g: [g.m(DBG)])
        sc(s, lambda g: [g.m(INF, 20), g.m(INF)], lambda g: [FLUSH, g.m(WRN)], after=lambda g: [g.m(DBG)])
    if not q:
        sc(K(("stream", INF), ("console", INF)), lambda g: [g.m(INF, 20), g.m(WRN)], lambda g: [g.m(INF, 20), g.m(ERR, 30, 3)])
    return out


def life(ctx, exe):
    """A sink that is made or destroyed while another thread logs."""
    for d in (False, True):
        _, crash = ctx.execute(exe, [{"op": "life", "destroy": d}])
        if crash is None:
            continue
        if "pure virtual" not in crash:
            ctx.violation(f"a sink is {'destroyed' if d else 'made'} while another thread logs: {crash[:600]}", {"kind": "life", "destroy": d})
        else:
            ctx.known_finding("sink-lifetime")


def run(ctx):
    exe = ctx.build("log")
    q = ctx.quick

    def model():
        ctx.explore("LogAlg", consts={"NO": 1} if q else {"NM": 2, "NO": 2}, timeout=850)

    def wrong():
        for v in ("readd", "no_lock"):
            ctx.refute("LogAlg", {"Variant": f'"{v}"', "NO": 1 if v == "readd" else 2})

    def text():
        r = ctx.explore("LogOut", consts={"Alpha": A("ab\n\r"), "StrLen": 4 if q else 7}, timeout=850)
        ctx.replay(exe, beh(ctx.emitted(r)), "console lines")
        ctx.replay(exe, beh([[{"op": "badfile", "ret": {"ok": True, "v": False}}]]), "a log file that cannot be opened")

    def seq():
        ctx.schedules(exe, sequential(ctx, 250 if q else 4000), "LogEvTrace", label="threads one after the other")

    def conc():
        tr = ctx.schedules(exe, concurrent(ctx, q), "LogEvTrace", label="threads logging and changing the sinks")

        def corrupt(tr):
            def start(i):
                while tr[i]["op"] != "reset":
                    i -= 1
                return i
            i = next(k for k, e in enumerate(tr) if e["op"] == "deliver")
            yield tr[start(i):i] + tr[i + 1:next(k for k in range(i, len(tr)) if tr[k]["op"] == "ret" and tr[k]["t"] == tr[i]["t"]) + 1]   # lost
            yield tr[start(i):i + 1] + [tr[i]]                                                                                             # twice
            i = next(k for k, e in enumerate(tr) if e["op"] == "lines" and len(e["lines"]) > 1)
            yield tr[start(i):i] + [{**tr[i], "lines": tr[i]["lines"][:-1]}]
            yield tr[start(i):i] + [{**tr[i], "lines": tr[i]["lines"][::-1]}]
        ctx.binding_check("LogEvTrace", tr, corrupt)
    ctx.par(model, wrong, text, seq, conc, lambda: life(ctx, exe), lambda: ctx.races(["log"]))
    ctx.need_ops("msg deliver ret flushed add rem lvl mode test get flush_call lines final console".split())
    ctx.assumptions.append("a sink is fully made before, and destroyed after, the messages of other threads (known finding sink-lifetime); sinks do not log themselves")
