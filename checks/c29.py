from vf import beh

DIRS = [[0, 1, 0], [0, -1, 0], [1, 0, 0], [0, 0, -1], [3, 4, 0], [4, -3, 0], [0, 4, -3], [-3, 0, 4], [-9, 20, 12], [12, -20, 9], [16, 15, -12], [0, 3, 4], [-12, 5, 0], [5, 12, 0], [0, -24, 7], [24, 7, 0], [7, -24, 0]]
FACTORS = [[4, 2, 1], [1, 8, 1], [1, 1, 1], [2, 4, 8], [9, 3, 1], [4, 16, 1]]
NONE = ["red", "rgb", "rgb(1,2)", "rgb(1,2,3,4)", "hsv()", "", "0x", "beige", "#ff0000", "ff00zz", "12 34", "1.5", "hsv(x,1,1)", "rgb(1,2,z)", "dead end", "0xfg"]


def root(n):
    return int(n ** 0.5 + 1e-9)


def far(s, a):
    """denominator of the distance, None when it is no fraction"""
    l, kk = root(sum(x * x for x in a)), root(a[0] ** 2 + a[2] ** 2)
    k, r, h = s["k"], s["r"], s["h"]
    if k == "box":
        m = 2
        for x in a:
            m *= abs(x) or 1
        return l, kk, m
    if k in ("cylinder", "capsule"):
        if h == 0 and a[1] == 0:
            return None
        top = 2 * abs(a[1]) * r > h * kk
        if k == "cylinder":
            return l, kk, (2 * abs(a[1]) if top else kk)
        d = 4 * (r * l) ** 2 - (h * kk) ** 2
        if d < 0 or root(d) ** 2 != d:
            return None
        return l, kk, (2 * l if top else kk)
    return l, kk, 1


def segments(ctx, n, length):
    r = ctx.rng

    def vec(m, k=3):
        return [r.randrange(-m, m + 1) for _ in range(k)]

    def quat():
        while True:
            q = [r.randrange(-2, 3) for _ in range(4)]
            if any(q):
                return q

    def unitq():
        while True:
            q = quat()
            if root(sum(x * x for x in q)) ** 2 == sum(x * x for x in q):
                return q

    def shape(kinds="sphere box cylinder capsule cone plane"):
        k = r.choice(kinds.split())
        z = [0, 0, 0]
        if k == "box":
            return {"k": k, "r": 0, "h": 0, "d": [r.randrange(1, 9) for _ in z]}
        if k == "plane":
            return {"k": k, "r": 0, "h": 0, "d": vec(4)}
        return {"k": k, "r": r.randrange(1, 6), "h": 0 if k == "sphere" else r.randrange(0, 7), "d": z}

    def color():
        return [r.choice([0, 255, 256, -1, 128, r.randrange(-9, 300), r.randrange(256)]) for _ in range(4)]

    def byte():
        return [r.choice([0, 1, 9, 15, 16, 171, 254, 255, r.randrange(256)]) for _ in range(4)]

    def text(f, c):
        rgb, rgba = "%02x%02x%02x" % tuple(c[:3]), "%02x%02x%02x%02x" % tuple(c)
        return {"hex": rgb, "HEX": rgb.upper(), "0x": "0x" + rgb, "hexa": rgba, "0Xa": "0X" + rgba.upper(), "rgb": "rgb(%d, %d,%d)" % tuple(c[:3]), "RGB": "RGB( %d;%d %d )" % tuple(c[:3])}[f]
    segs = []
    for _ in range(n):
        ops = []
        for _ in range(length):
            x = r.random()
            if x < 0.2:
                ops.append({"op": "shape", "s": shape(), "n": r.randrange(1, 3), "f": r.randrange(1, 4), "v": r.choice(FACTORS)})
            elif x < 0.25:
                e = [[r.choice(["radius", "height", "total_length"]), [r.randrange(0, 20)]] for _ in range(r.randrange(0, 4))] + [[r.choice(["dim", "normal"]), [r.randrange(0, 9) * 2 for _ in range(3)]]]
                r.shuffle(e)
                ops.append({"op": "read", "k": r.choice(["sphere", "box", "cylinder", "capsule", "capsule", "cone", "plane", "torus", "BOX"]), "e": e})
            elif x < 0.42:
                s, a = shape("sphere box cylinder capsule plane"), r.choice(DIRS)
                if s["k"] == "capsule" and r.random() < 0.5:
                    s = {**s, "r": r.choice([5, 10, 13]), "h": r.choice([6, 8, 10, 24])}
                f = far(s, a)
                if f:
                    ops.append({"op": "far", "s": s, "a": a, "l": f[0], "kk": f[1], "m": f[2]})
            elif x < 0.47:
                ops.append({"op": "bounds", "ps": [vec(9) for _ in range(r.randrange(1, 6))], "b": False})
            elif x < 0.53:
                ops.append({"op": "boxat", "d": [r.randrange(0, 9) for _ in range(3)], "q": unitq(), "p": vec(5)})
            elif x < 0.56:
                ops.append({"op": "ballat", "r": r.randrange(0, 9), "q": quat(), "p": vec(9)})
            elif x < 0.6:
                ops.append({"op": "caps", "h": r.randrange(0, 9), "q": quat(), "p": vec(5)})
            elif x < 0.65:
                p, d, q, nn, t = vec(5), vec(3), quat(), vec(2), vec(4)
                w, i, j, k = q
                rot = [[w * w + i * i - j * j - k * k, 2 * (i * j - w * k), 2 * (i * k + w * j)], [2 * (i * j + w * k), w * w - i * i + j * j - k * k, 2 * (j * k - w * i)], [2 * (i * k - w * j), 2 * (j * k + w * i), w * w - i * i - j * j + k * k]]
                m = sum(u * sum(g * h for g, h in zip(row, nn)) for u, row in zip(d, rot))
                if m and abs(m) < 300:
                    ops.append({"op": "meet", "p": p, "d": d, "n": nn, "q": q, "t": t, "m": m})
            elif x < 0.74:
                a = color()
                ops.append({"op": "col", "a": a, "b": r.choice([color(), a, a[:3] + [7]]), "s": r.choice([2, -1, 3, 0])})
            elif x < 0.8:
                ops.append({"op": "hsv", "h": r.randrange(-100, 100), "s": r.randrange(5), "v": r.randrange(5)})
            elif x < 0.82:
                ops.append({"op": "named", "k": r.choice("red orange yellow green cyan blue magenta white".split()), "s": r.randrange(5), "v": r.randrange(5)})
            elif x < 0.88:
                f, c = r.choice("hex HEX 0x hexa 0Xa rgb RGB".split()), byte()
                ops.append({"op": "text", "f": f, "t": text(f, c), "c": c})
            elif x < 0.9:
                ops.append({"op": "text", "f": "none", "t": r.choice(NONE), "c": [0, 0, 0, 0]})
            elif x < 0.93:
                h, s, v = r.randrange(-30, 50), r.randrange(5), r.randrange(5)
                ops.append({"op": "hsvtext", "h": h, "s": s, "v": v, "t": r.choice(["", "hsv(%d, %d, %d)" % (15 * h, 25 * s, 25 * v), "HSV(%d;%d;%d)" % (15 * h, 25 * s, 25 * v)])})
            elif x < 0.95:
                a = r.random() < 0.5
                ops.append({"op": "node", "c": [r.randrange(5) for _ in range(3)] + [r.randrange(5) if a else 4], "a": a, "b": r.random() < 0.5})
            elif x < 0.998:
                at = sorted(r.sample(range(-8, 9), r.randrange(1, 4)))
                g, y = [[k, color()] for k in at], r.randrange(-10, 11)
                i = max([k for k in range(len(at)) if at[k] <= y], default=-1)
                ops.append({"op": "grad", "g": g, "x": y, "m": 1 if i < 0 or i == len(at) - 1 else at[i + 1] - at[i]})
            else:
                ops.append({"op": "unique", "n": r.randrange(1, 200), "b": r.randrange(1, 5)})
        segs.append({"ops": ops})
    return segs


def run(ctx):
    exe = ctx.build("shapes")
    q = ctx.quick

    def ex(part, **c):
        def go():
            r = ctx.explore("Shapes", consts={"Part": f'"{part}"', **c}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"{part}: every transition")
        return go

    def traces():
        tr = ctx.record(exe, segments(ctx, 40 if q else 500, 120), label="recorded")
        ctx.validate("ShapesTrace", tr, exe=exe, label="recorded runs", timeout=850)

        def corrupt(t):
            for op, bad in (("shape", lambda v: {**v, "vol": v["vol"] + 1}), ("far", lambda v: v + 1), ("col", lambda v: {**v, "lt": not v["lt"]}), ("hsv", lambda v: [v[0], v[1], v[2] + 1, v[3]])):
                i = max(k for k, e in enumerate(t) if e["op"] == op)
                s = max(k for k in range(i) if t[k]["op"] == "reset")
                yield t[s:i] + [{**t[i], "ret": {"ok": True, "v": bad(t[i]["ret"]["v"])}}]
        ctx.binding_check("ShapesTrace", tr, corrupt)
    ctx.par(traces, ex("shape", M=3 if q else 6), ex("far", M=2 if q else 5), ex("place", M=2 if q else 3), ex("col"), ex("hsv"), ex("text"), ex("grad"))
    ctx.need_ops("shape read far bounds boxat ballat caps meet col hsv named text hsvtext node grad unique".split())
    ctx.assumptions.append("shapes with whole sizes; volumes and moments of inertia are whole after multiplying with 3 and 60 and dividing by pi, and are compared within 0.4; rotations are given by quaternions of integers, directions by whole vectors of whole length; colours in 255ths, 64ths and quarters; the moments of inertia of a cone and the surroundings of the round shapes are not implemented in the library and are not claimed")
