from vf import beh
from checks.zmlgen import S, C, rtext, codes

PIECES = S('a', '=', '{', '}', '[', ']', '1 ', '"b c"', '""', '#x\n', '/*', '*/', '$m', '@a', '"${m}"', ': ', '\n', "'", '\\', '//')
OPEN = S('', 'a=1 ', 'a{', 'a[', '$m=1 a{ b=', 'a={b=2}c=', 'a="', '$m{$n=1 b=$n ')


def run(ctx):
    exe = ctx.build("zml")
    q = ctx.quick

    def pieces(c):
        r = ctx.explore("ZmlText", consts={"Mode": '"pieces"', "Pieces": PIECES, "Openings": OPEN, **c}, timeout=850)
        ctx.replay(exe, beh(ctx.emitted(r)), f"every text of {c.get('MaxPieces')} pieces")

    def means(c):
        r = ctx.explore("ZmlText", consts=c, timeout=850)
        ctx.replay(exe, beh(ctx.emitted(r)), f"every document of {c['MaxSteps']} items")

    def long():
        c = {"Keys": S('a', 'b', 'x y', '@k', '#2'), "Vals": S('', '1', '=', 'q"\\', 'ab', '}', '\xe9 '), "Macros": S('$m', '$n'), "EmitAll": "FALSE", "Rich": "TRUE",
             "MaxSteps": 18 if q else 30}
        r = ctx.simulate("ZmlText", consts=c, num=120 if q else 2000, depth=(20 if q else 32), timeout=850)
        ctx.replay(exe, beh(ctx.emitted(r)), "long documents")

    def traces():
        r = ctx.rng
        segs = [{"ops": [{"op": "parse", "s": codes(rtext(r, 14))} for _ in range(30)]} for _ in range(30 if q else 400)]
        tr = ctx.record(exe, segs)
        good = sum(1 for t in tr if t["op"] == "parse" and t["ret"]["ok"])
        ctx.notes["recorded_texts_well_formed"] = good
        ctx.validate("ZmlTrace", tr, exe=exe, label="texts", timeout=850)

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "parse" and e["ret"]["ok"] and e["ret"]["v"]["c"])
            c = [dict(e) for e in t[:i + 1]]
            v = c[i]["ret"]["v"]
            yield c[:i] + [{**c[i], "ret": {"ok": False}}]
            yield c[:i] + [{**c[i], "ret": {"ok": True, "v": {**v, "c": v["c"][:-1]}}}]
        ctx.binding_check("ZmlTrace", tr, corrupt)
    jobs = [lambda: pieces({"MaxPieces": 2 if q else 3}), lambda: means({"MaxSteps": 3 if q else 4})]
    if q:
        jobs.append(lambda: pieces({"MaxPieces": 3, "Openings": S('', 'a [ '), "Pieces": S('a', '=', '{', '}', '[', ']', '$m', '"', '""', '@a', ' ')}))
    else:
        jobs += [lambda: pieces({"MaxPieces": 4, "Openings": S('', 'a=1 '), "Pieces": S('a', '=', '{', '}', '[', ']', '$m', '""', '@a')}),
                 lambda: means({"MaxSteps": 4, "Keys": S('a', 'b'), "Vals": S('1', '=')})]
    ctx.par(long, traces, *jobs)
    ctx.assumptions.append("nesting depth is limited by the stack: texts nest at most a few dozen levels")
