import re
from vf import beh
from checks.zmlgen import S, codes

INI = {"Pieces": S('a', '=', '[', ']', ';', '\n', ' ', 'b', '[g]\n', 'a=1\n', '\t'), "Openings": S('', 'a=1\n', '[g]\n', '[g]\na=2\n', 'a=1\n[g]\n[h]\na=2\n'), "Closings": S('', '\n', '=', ']\n')}
XML = {"Pieces": S('a', '<', '>', '/', '=', '"', "'", ' ', '!', '?', '-', '&amp;', '&', '<a>', '</a>', '\n', 'x="1"', '<![CDATA[', ']]>', '<!--', '-->', '&#65;', '[', ']'),
       "Openings": S('', '<a>', '<a', '<a b="1"', '<!DOCTYPE ', '\xef\xbb\xbf<b><a>', "<a>t<b c='"), "Closings": S('', '>', '/>', '</a>', '></a>', '-->', '\'"/></b></a>')}
NAMES = ["a", "b", "ab", "x-1", "n.s:q", "\xe9", "_"]
CH = ["a", "b", "1", " ", "=", "[", "]", ";", "<", ">", "&", "/", "'", '"', "\t", "#", ".", "\xe9", "\x01", "-", "!", "?", "&amp;", "]]>", "x=y"]


def rval(r, nl):
    s = "".join(r.choice(CH + (["\n"] if nl else [])) if r.random() < 0.5 else r.choice("abc019") for _ in range(r.choice([0, 1, 1, 2, 4, 12])))
    return s if nl else s.strip()


def rname(r, f):
    if f == "xml" or r.random() < 0.5:
        return r.choice(NAMES)
    s = rval(r, False)
    return s if s and s[0] not in ";[" and "=" not in s else r.choice(NAMES)


def ini_tree(r):
    def items(lo):
        ks = []
        for _ in range(r.choice([lo, 1, 2, 4])):
            k = rname(r, "ini")
            if k not in ks:
                ks.append(k)
        return [{"k": codes(k), "n": {"v": codes(rval(r, False)), "c": []}} for k in ks]
    c = [i for i in items(0) if i["n"]["v"]] + [{"k": codes(rname(r, "ini")), "n": {"v": [], "c": items(1)}} for _ in range(r.choice([0, 1, 2, 3]))]
    r.shuffle(c)
    if r.random() < 0.05:
        c.append({"k": codes("long"), "n": {"v": codes("v" * r.choice([1017, 1018, 1019, 1020])), "c": []}})
    return {"v": [], "c": c}


def xml_node(r, d):
    if d == 0 or r.random() < 0.4:
        v = rval(r, True)
        return {"v": codes(v if v.strip() else ""), "c": []}
    return {"v": [], "c": [{"k": codes(r.choice(NAMES)), "n": xml_node(r, d - 1)} for _ in range(r.choice([0, 1, 2, 4]))]}


def xml_tree(r):
    return {"v": [], "c": [{"k": codes(r.choice(NAMES)), "n": xml_node(r, r.choice([0, 1, 2, 4]))} for _ in range(r.choice([0, 1, 1, 1, 2]))]}


def ini_text(r):
    t = []
    for _ in range(r.randrange(1, 12)):
        k = r.random()
        t.append("[" + rname(r, "ini") + "]" if k < 0.2 else ";" + rval(r, False) if k < 0.3 else "" if k < 0.35 else
                 r.choice(["", " ", "\t"]) + rname(r, "ini") + r.choice(["=", " = ", "= "]) + rval(r, False) + r.choice(["", "", " "]))
    if r.random() < 0.04:
        t.append("k=" + "v" * r.choice([1020, 1021, 1022, 1023, 2100]))
    s = "\n".join(t) + r.choice(["", "\n"])
    if r.random() < 0.35:
        i = r.randrange(len(s) + 1)
        s = r.choice([s[:i] + s[i + 1:], s[:i] + r.choice("=[]; \na") + s[i:], s[:i]])
    return s


def xml_text(r):
    def esc(v, q=None):
        return "".join({"&": "&amp;", "<": "&lt;"}.get(c, c) if c != q else "&quot;" if c == '"' else "&apos;" for c in v) if r.random() < 0.7 else \
            "".join(r.choice([f"&#{ord(c)};", f"&#x{ord(c):X};"]) for c in v)

    def el(d):
        n = r.choice(NAMES)
        q = r.choice("'\"")
        a = "".join(r.choice([" ", "\n\t"]) + r.choice(NAMES) + r.choice(["=", " = "]) + q + esc(rval(r, True), q) + q for _ in range(r.choice([0, 0, 1, 2])))
        if r.random() < 0.2:
            return f"<{n}{a}/>"
        b = ""
        for _ in range(r.choice([0, 1, 2, 4])):
            k = r.random()
            b += el(d - 1) if d and k < 0.4 else esc(rval(r, True)) if k < 0.7 else r.choice(["<!-- <c> -->", "<?pi <x> ?>", "\n  ", "<![CDATA[q<w>&]]>", "<![CDATA[]]>", "&unknown;", "&#x20AC;", "&#233;", "&#x1F600;"])
        return f"<{n}{a}>{b}</{n}{r.choice(['', ' '])}>"
    s = r.choice(["", "\xef\xbb\xbf", "\n"]) + r.choice(["", "<?xml version='1.0'?>\n", "<!DOCTYPE x [ <!ENTITY a '>'> ]>"]) + el(r.choice([0, 1, 3])) + r.choice(["", "\n", "<!-- c -->", "<b/>"])
    if r.random() < 0.4:
        i = r.randrange(len(s) + 1)
        s = r.choice([s[:i] + s[i + 1:], s[:i] + r.choice("<>/='\"!?a &") + s[i:], s[:i], s[:i] + s[i + 2:]])
    # what a reference without digits of its own base means is left open
    return re.sub(r"&#(?=x[^0-9a-fA-F]|[^x0-9]|x?0|x?$|[0-9]+[a-fA-F])", "&", s)


def run(ctx):
    exe = ctx.build("ini_xml")
    q = ctx.quick

    def pieces(f, n, **more):
        def go():
            r = ctx.explore("IniXmlMC", consts={"F": f'"{f}"', "Mode": '"pieces"', "MaxPieces": n, **(INI if f == "ini" else XML), **more}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"every {f} text of {n} pieces")
        return go

    def trees(f, n, k, v):
        def go():
            r = ctx.explore("IniXmlMC", consts={"F": f'"{f}"', "Mode": '"trees"', "MaxNodes": n, "K": k, "V": v}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"every {f} tree of {n} nodes")
        return go

    def means(f, n, k, v):
        def go():
            r = ctx.explore("IniXmlMC", consts={"F": f'"{f}"', "Mode": '"means"', "MaxSteps": n, "K": k, "V": v}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"every {f} document of {n} items")
        return go

    def long(f):
        def go():
            c = {"F": f'"{f}"', "Mode": '"means"', "MaxSteps": 18 if q else 40, "Rich": "TRUE",
                 "K": S('a', 'b', 'a.b', '\xe9', '#1', 'x y') if f == "ini" else S('a', 'b', 'a.b', '\xe9', 'x-1'),
                 "V": S('', '1', 'a b', '=', '[g]', ';') if f == "ini" else S('', '1', ' a<b ', '&amp;', '"\'', ']]>', 'x\ny')}
            r = ctx.simulate("IniXmlMC", "IniXmlSim.cfg", consts=c, num=150 if q else 3000, depth=20 if q else 42, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"long {f} documents")
        return go

    def traces():
        r = ctx.rng
        segs = []
        for _ in range(40 if q else 600):
            ops = []
            for _ in range(8):
                for f, t, x in (("ini", ini_tree, ini_text), ("xml", xml_tree, xml_text)):
                    n = t(r)
                    ops += [{"op": "write", "f": f, "n": n}, {"op": "round", "f": f, "w": "stream", "n": n}, {"op": "round", "f": f, "w": "file", "n": n}]
                    ops += [{"op": "parse", "f": f, "s": codes(x(r))} for _ in range(3)]
            segs.append({"ops": ops})
        tr = ctx.record(exe, segs)
        for f in ("ini", "xml"):
            p = [t for t in tr if t["op"] == "parse" and t["f"] == f]
            ctx.notes[f"recorded_{f}_texts_well_formed"] = f"{sum(t['ret']['ok'] for t in p)} of {len(p)}"
        ctx.validate("IniXmlTrace", tr, exe=exe, label="recorded texts and trees", timeout=850)

        def corrupt(t):
            for f in ("ini", "xml"):
                i = next(k for k, e in enumerate(t) if e["op"] == "write" and e["f"] == f and len(e["ret"]["v"]) > 6)
                c = [dict(e) for e in t[:i + 1]]
                c[i] = {**c[i], "ret": {"ok": True, "v": c[i]["ret"]["v"][4:]}}
                yield c
        ctx.binding_check("IniXmlTrace", tr, corrupt)
    k, v = S('a', 'b', '['), S('', '1', '=')
    kx, vx = S('a', 'b'), S('', '1', ' &<')
    jobs = [pieces("ini", 3 if q else 4), pieces("xml", 2), trees("ini", 4 if q else 5, S('a', 'b'), S('', '1')), trees("ini", 3 if q else 4, k, S('', '=;[')),
            trees("xml", 4 if q else 5, kx, S('', '1')), trees("xml", 3 if q else 4, kx, vx), means("ini", 2 if q else 3, k, v), means("xml", 2, S('a', 'b') if not q else S('a'), S('', '1', '<'))]
    if not q:
        jobs.append(pieces("xml", 3, Openings=S('', '<a>', '<a'), Closings=S('', '>', '</a>')))
    ctx.par(traces, long("ini"), long("xml"), *jobs)
    ctx.need_ops(["parse", "round", "write"])
    ctx.assumptions.append("text without NUL and without carriage returns in INI; numeric character references are followed by digits of their own base")
