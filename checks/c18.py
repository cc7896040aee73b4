from vf import beh
from checks.zmlgen import S, codes, CH, rtext
from checks.c25 import A

EDGE = "{97, 32, 10, 13, 9, 11, 34, 39, 92, 0, 1, 7, 8, 31, 48, 49, 51, 55, 56, 110, 114, 116, 127, 128, 255}"


def Q(*l):
    return "<<" + ", ".join("<<" + ", ".join(str(c) for c in codes(x)) + ">>" for x in l) + ">>"


def run(ctx):
    exe = ctx.build("strings")
    cs = ctx.build("char_stream")
    q = ctx.quick

    def quote(alpha, n, args=('', '={', "'")):
        def go():
            r = ctx.explore("StrEnum", consts={"Family": '"quote"', "Alpha": alpha, "StrLen": n, "Args": S(*args)}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"quoting: every string of up to {n} of {alpha[:30]}")
        return go

    def stream(alpha, n, words, quotes='"', delims=" \n", ops=(), extra=()):
        def go():
            r = ctx.explore("CharStream", consts={"Alpha": A(alpha), "TextLen": n, "Words": S(*words), "Quotes": A(quotes) if quotes else "{}", "Delims": A(delims), "Operators": Q(*ops),
                                                  "Extra": S(*extra)}, timeout=850)
            ctx.replay(cs, beh(ctx.emitted(r)), f"char_stream: every text of up to {n} of {alpha!r}, every call")
        return go

    def long():
        r = ctx.simulate("CharStream", "CharStreamSim.cfg", consts={"Alpha": A('ab1-" \n=\\\'\xe9,'), "TextLen": 40, "Words": S('a', 'b1', '=', ' ', '\n', 'ab'), "Quotes": A('"'), "Delims": A(' \n'),
                                                                   "Operators": Q('=', '==', 'b='), "MaxLen": 30}, num=150 if q else 3000, depth=32, timeout=850)
        ctx.replay(cs, beh(ctx.emitted(r)), "char_stream: long random runs")

    def traces():
        r = ctx.rng
        segs = []
        for _ in range(60 if q else 1500):
            t = "".join(r.choice(CH + ["12", "-7 ", " ", "\n", "ab"]) for _ in range(r.choice([0, 3, 20, 80]))) if r.random() < 0.7 else rtext(r, 12)
            ops = []
            for _ in range(40):
                k = r.choice(["int", "opt", "token", "token", "token", "line", "getc", "peekc", "seek", "seek_past", "try_str", "try_char"])
                o = {"op": k}
                if k in ("seek", "seek_past", "try_str"):
                    o["x"] = codes(r.choice(["a", "=", "*/", "\n", "b", "12", "", "ab", '"']))
                if k == "try_char":
                    o["c"] = ord(r.choice("a=\n1\""))
                ops.append(o)
            segs.append({"init": {"s": codes(t), "d": codes(r.choice([" \n", " \t\n\r", " ,"])), "q": codes(r.choice(['"', '"\'', '', "'"])),
                                  "o": [codes(x) for x in r.choice([[], ["="], ["=", "==", "{", "}"], ["#", "//", "/*", "*/"], ["=", "==", "===", "a=="], ["aab", "=", "aa", "a", "b=b=", "b="]])]}, "ops": ops})
        tr = ctx.record(cs, segs)
        ctx.validate("CharStreamTrace", tr, exe=cs, label="char_stream", timeout=850)

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "token" and e["ret"]["v"])
            c = [dict(e) for e in t[:i + 1]]
            c[i] = {**c[i], "ret": {"ok": True, "v": c[i]["ret"]["v"][:-1]}}
            yield c
        ctx.binding_check("CharStreamTrace", tr, corrupt)

    def quotes_recorded():
        r = ctx.rng
        ops = []
        for _ in range(800 if q else 6000):
            s = [r.randrange(256) if r.random() < 0.3 else ord(r.choice('ab"\\017\'nrt ')) for _ in range(r.choice([1, 2, 5, 40]))]
            ops.append(r.choice([{"op": "quoted", "s": s}, {"op": "try_quoted", "s": s, "x": codes("=")}, {"op": "unquoted", "s": s}, {"op": "unquoted", "s": [34] + s + [34]}, {"op": "decode", "s": s},
                                 {"op": "decode", "s": [92] + s}, {"op": "encode", "c": s[0]}]))
        tr = ctx.record(exe, [{"ops": ops}])
        ctx.validate("StrTrace", tr, exe=exe, label="quoting", timeout=850)
    d = 0 if q else 1
    ctx.par(traces, long, quotes_recorded,
            quote("0..255", 1), quote(EDGE, 2 + d), quote('{92, 34, 97, 48, 51, 55}', 4 + d), quote('{92, 34, 110}', 6 + d),
            stream('a1- "\\', 3 + d, ['a', '"']), stream('a=" ', 4 + d, ['=', 'a=', ''], ops=['=', 'a=', '=='], extra=['=a"b=c" =="x"=a a']),
            stream('a= ', 5 + d, ['='], ops=['=', '==', '===', 'a==', '====='], extra=['a=====a====a']),
            stream('a\n \r1', 3 + d, ['\n', 'a'], extra=['ab 12 -3\nxyz\n\n"q q"', '"a\\"b\\\\" c']),
            stream('a\'"\\ ', 3 + d, ['"'], quotes='"\''), stream('a, ', 4, [','], delims=',', quotes=''))
    ctx.need_ops(["int", "opt", "token", "line", "getc", "peekc", "seek", "seek_past", "try_str", "try_char", "set_ops", "set_delims", "set_quotes", "quoted", "try_quoted", "unquoted", "encode", "decode"])
    ctx.assumptions += ["integers within the model's 32-bit range", "operators of equal length exclude each other, so the order among them does not matter"]
