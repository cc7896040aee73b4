from vf import beh

INTS = {"int": 31, "uint": 32, "long": 63, "ulong": 64}
KEYS = ["limit", "speed", "name", "size", "items", "", "x", "y", "z", "@4deep"]


def T(s):
    return [ord(c) for c in s]


def segments(ctx, n, length):
    r = ctx.rng

    def leaf(v):
        return {"v": T(v), "c": []}

    def whole(t, read=False):
        if read and r.random() < 0.3:
            m = "".join(r.choice("0123456789") for _ in range(r.randrange(0, 24)))
            sign = r.choice(["", "", "+"] if t[0] == "u" else ["", "-", "+"])
            return r.choice(["", " ", "\t\n "]) + sign + m + r.choice(["", "", " ", "x", ".5", " 4"])
        b = INTS[t]
        hi, lo = 2 ** b - 1, 0 if t[0] == "u" else -2 ** b
        k = r.choice([hi, lo, hi - r.randrange(9), lo + r.randrange(9), r.randrange(lo, hi + 1), r.randrange(0, 1000)])
        if read and r.random() < 0.4:
            k = r.choice([hi + r.randrange(1, 99), hi * r.randrange(2, 99), 0 if t[0] == "u" else lo - r.randrange(1, 99)])
        return str(k)

    def dec(digits, small):
        """a number in its shortest text of at most that many digits"""
        d = r.randrange(1, digits + 1)
        while True:
            m = r.randrange(10 ** (d - 1), 10 ** d)
            s = str(m).rstrip("0")
            if not (len(s) == 7 and s[-1] == "5"):
                break
        return float(("-" if r.random() < 0.4 else "") + str(m) + "e" + str(r.randrange(-d - 4, 5) if r.random() < 0.7 else r.randrange(-25 if small else -250, 25 if small else 250)))

    def dec_text(digits, small=False):
        d = r.randrange(1, digits + 1)
        m = "".join(r.choice("0123456789") for _ in range(d))
        k = r.randrange(0, d + 1)
        return r.choice(["", "", "-", "+", " "]) + m[:k] + r.choice([".", ".", ""]) + m[k:] + r.choice(["", "", "e%d" % r.randrange(-20, 20), "E+03", "e", "q", " 7"])

    def text():
        return "".join(r.choice("ab 0_pearl-") for _ in range(r.randrange(0, 7)))

    def val(t, keep=False):
        if t in INTS:
            return T(whole(t))
        if t == "double":
            return T("%.15g" % dec(6 if keep else 15, False))
        if t == "float":
            return T("%.6g" % dec(6, True))
        if t in ("str", "proxy"):
            return T(r.choice([text(), text(), "pear", "", "12", "true"]))
        if t == "path":
            return T(r.choice(["a", "b", "a_b", ""]))
        if t == "bool":
            return r.random() < 0.5
        if t == "time":
            return r.choice([r.randrange(0, 10000), 1000 * r.randrange(10, 10 ** 5), r.randrange(0, 10 ** 8), -r.randrange(1, 10 ** 7)])
        if t == "enum":
            return r.randrange(1, 4)
        if t[0] == "v" and t != "vec3":
            return [val({"vint": "int", "vstr": "str", "vvint": "vint", "vtime": "time", "venum": "enum", "vnode": "node", "vvec3": "vec3"}[t], keep) for _ in range(r.randrange(0, 5))]
        if t == "map":
            ks = sorted({text() for _ in range(r.randrange(0, 5))})
            return [{"k": T(k), "v": val("int")} for k in ks]
        if t in ("vec3", "scale"):
            return [val("double", True) for _ in range(3)]
        return tree(2)

    def word():
        return r.choice([text(), whole("int"), dec_text(5), "", "1", "7"])

    def tree(d):
        return {"v": T(word()), "c": [{"k": T(r.choice(["", "", "a", "x", "b c"])), "n": tree(d - 1)} for _ in range(r.randrange(0, 4))] if d else []}

    def to_read(t):
        if t in INTS:
            return leaf(whole(t, True))
        if t == "double":
            return leaf(dec_text(15))
        if t == "float":
            return leaf(dec_text(6, True))
        if t == "bool":
            return leaf(r.choice(["true", "false", "yes", "no", "1", "0", "True", "yes ", "", "2", "nope"]))
        if t == "enum":
            return leaf(r.choice(["apple", "pear", "ripe_pear", "ripe_pea", "Pear", "pear ", "apple pear", "", "1"]))
        if t == "time":
            return leaf(r.choice(["%d" % r.randrange(10 ** 5), "%d.%03d" % (r.randrange(10 ** 4), r.randrange(1000)), "%d:%02d" % (r.randrange(99), r.randrange(60)), "%d:%02d:%02d" % (r.randrange(30), r.randrange(60), r.randrange(60)), "%d:%02d.5" % (r.randrange(99), r.randrange(60)), "a", "1:a", ""]))
        if t in ("vec3", "scale"):
            k = r.random()
            if k < 0.4:
                return leaf(r.choice([" ", "  "]).join(dec_text(6).strip() or "1" for _ in range(r.randrange(0, 5))))
            if k < 0.7:
                ks = ["x", "y", "z"]
                r.shuffle(ks)
                return {"v": [], "c": [{"k": T(k), "n": leaf("%d" % r.randrange(-99, 99))} for k in ks[:r.choice([3, 3, 3, 2])]]}
            return {"v": [], "c": [{"k": [], "n": leaf("%g" % dec(5, True))} for _ in range(r.randrange(2, 5))]}
        if t in ("vint", "vstr", "arr3"):
            return {"v": [], "c": [{"k": T(r.choice(["", "a"])), "n": leaf(r.choice([whole("int"), text() if t == "vstr" else "5"]))} for _ in range(r.choice([0, 2, 3, 3, 4, 5]))]}
        if t == "map":
            return {"v": [], "c": [{"k": T(text()), "n": leaf(whole("int", r.random() < 0.2))} for _ in range(r.randrange(0, 5))]}
        return tree(3)

    types = ["int", "uint", "long", "ulong", "double", "float", "str", "proxy", "bool", "time", "enum", "vint", "vstr", "vec3", "scale", "map", "node", "arr3", "vnode"]
    kept = ["int", "uint", "long", "ulong", "double", "float", "str", "path", "proxy", "bool", "time", "enum", "vint", "vstr", "vvint", "vtime", "venum", "vnode", "vvec3", "map", "vec3", "scale", "node"]
    segs = []
    for _ in range(n):
        ops = []
        for _ in range(length):
            x, k = r.random(), T(r.choice(KEYS[:6] if r.random() < 0.7 else KEYS))
            if x < 0.28:
                t = r.choice(types)
                ops.append({"op": "read", "t": t, "n": to_read(t)})
            elif x < 0.45:
                t, o = r.choice(kept), r.choice(["write", "keep", "missing"])
                ops.append({"op": o, "t": t, "v": val(t, o != "write")})
            elif x < 0.62:
                t = r.choice(["int", "str", "double", "vint", "node"])
                ops.append({"op": r.choice(["set", "add"]), "k": k, "t": t, "v": val(t, True)})
            elif x < 0.64:
                ops.append(r.choice([{"op": "value", "t": "str", "v": T(word())}, {"op": "values", "v": val("vint")}, {"op": "children", "n": r.randrange(0, 3), "k": k, "v": T(word())}, {"op": "setprop", "v": val("int")}]))
            elif x < 0.86:
                t, ks = r.choice(["int", "double", "str"]), [T(r.choice(KEYS)) for _ in range(r.randrange(1, 3))]
                ops.append(r.choice([{"op": "get", "k": k, "t": t}, {"op": "get_or", "k": k, "t": t, "v": val(t, True)}, {"op": "get_at", "i": r.randrange(0, 12), "t": t}, {"op": "get_all", "k": k, "t": t},
                                     {"op": "get_any", "ks": ks, "t": t}, {"op": "get_any_or", "ks": ks, "t": t, "v": val(t, True)}]))
            elif x < 0.96:
                ops.append(r.choice([{"op": "conf"}, {"op": "confs"}, {"op": "props", "v": val("int")}]))
            else:
                ops.append(r.choice([{"op": "str"}, {"op": "log"}]))
        segs.append({"ops": ops})
    return segs


def run(ctx):
    exe = ctx.build("typed")
    q = ctx.quick

    def ex(part, **c):
        def go():
            r = ctx.explore("Typed", consts={"Part": f'"{part}"', **c}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"{part}: every transition")
        return go

    def traces():
        tr = ctx.record(exe, segments(ctx, 60 if q else 800, 40), label="recorded")
        ctx.validate("TypedTrace", tr, exe=exe, label="recorded runs", timeout=850)

        def corrupt(t):
            for op, bad in (("read", lambda v: False), ("keep", lambda v: False), ("missing", lambda v: [1]), ("props", lambda v: {**v, "had": not v["had"]}), ("str", lambda v: v + [32]), ("log", lambda v: {**v, "w": v["w"] + 1})):
                i = max(k for k, e in enumerate(t) if e["op"] == op and e["ret"]["ok"])
                s = max(k for k in range(i) if t[k]["op"] == "reset")
                yield t[s:i] + [{**t[i], "ret": {"ok": True, "v": bad(t[i]["ret"]["v"])}}]
            i = max(k for k, e in enumerate(t) if e["op"] == "set")
            s = max(k for k in range(i) if t[k]["op"] == "reset")
            yield t[s:i] + [{**t[i], "obs": {**t[i]["obs"], "c": t[i]["obs"]["c"][1:]}}]
        ctx.binding_check("TypedTrace", tr, corrupt)
    ctx.par(traces, ex("text"), ex("lists", M=2 if q else 3), ex("write", M=2 if q else 4), ex("tree", MaxLen=3 if q else 4), ex("print", MaxLen=2 if q else 3))
    ctx.need_ops("read write keep missing set add value values children setprop get get_or get_at get_any get_any_or get_all conf confs props str log".split())
    ctx.assumptions.append("numbers whose text ends in a tie beyond the precision written, negative text read as an unsigned number (it wraps, as in C), a vector read from a node with a value of its own, and a log level that is no digit are not asked; an optional whole number cannot hold the one value that means none (the lowest, or the highest of an unsigned type), which is its documented representation; types that do not compile as values (short, char, vector of bool) are outside")
