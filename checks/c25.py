from vf import beh
from checks.zmlgen import S, codes


def A(t):
    return "{" + ", ".join(str(c) for c in sorted(set(codes(t)))) + "}"


def rs(r, al, n):
    return codes("".join(r.choice(al) for _ in range(r.randrange(n + 1))))


def rop(r):
    al = r.choice(["ab", "ab ", "aab,;", "aA\xe9Zz ", "/\\.a"])
    s, x, y = rs(r, al, r.choice([3, 8, 30])), rs(r, al, r.choice([1, 2, 3])), rs(r, al, 3)
    op = r.choice(["left", "right", "mid", "in", "nth", "begins", "begins_at", "ends", "contains", "char", "trim", "trim_ws", "split", "split_first", "split_last", "replace",
                   "replace_char", "latin", "case", "copy", "keyval", "concat", "concat2", "append", "format", "match", "match", "matcher", "is_pattern", "num", "int", "bool", "time", "list", "stack", "dict"])
    n = r.randrange(-12, 13)
    o = {"op": op, "s": s}
    if op in ("left", "right"):
        o["n"] = r.choice([n, n * 100])
    elif op == "mid":
        o.update(n=abs(n), m=r.randrange(-1, 12))
    elif op in ("in", "nth", "begins_at"):
        o.update(x=x or codes("a"), n=abs(n))
    elif op in ("begins", "ends", "contains", "trim", "split", "split_first", "split_last", "keyval"):
        o["x"] = x
    elif op == "char":
        o["c"] = r.choice(codes(al))
    elif op == "replace":
        o.update(x=x or codes("a"), y=y)
    elif op == "replace_char":
        o.update(c=r.choice(codes(al)), d=r.choice(codes(al)))
    elif op == "latin":
        o["s"] = [r.choice([97, 65, 193, 228, 252, 241, 201, 246, 231, 223]) for _ in range(r.randrange(8))]
    elif op == "copy":
        o["n"] = abs(n) * r.choice([1, 4])
    elif op == "concat":
        o = {"op": op, "l": [rs(r, al, 3) for _ in range(r.randrange(7))], "x": x}
    elif op == "concat2":
        o.update(x=x, c=46)
    elif op == "append":
        o.update(x=x, y=y)
    elif op == "format":
        o.update(s=codes("x" * r.choice([0, 3, 240, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 1000]) + "y"), n=n)
    elif op in ("match", "matcher"):
        p = "".join(r.choice(["a", "b", "*", "?", "ab", "[ab]", "[!a]", "[^b]", "[a-c]", "-", "[", "]", "[]a]", "\\"]) for _ in range(r.randrange(6)))
        if op == "matcher":
            p = ";".join("".join(r.choice(["a", "b", "*", "?", "[ab]"]) for _ in range(r.randrange(4))) for _ in range(r.randrange(4)))
        o.update(s=rs(r, "ab-c[]\\", 6), x=codes(p))
    elif op == "num":
        o["s"] = codes(r.choice(["", "", " ", "\t", "x", "+", "--"]) + r.choice(["", "-", "+"]) + r.choice(["0", "00", ""]) + "".join(r.choice("0123456789") for _ in range(r.choice([0, 1, 3, 9, 12, 18]))) + r.choice(["", "", " 1", "x", ".5"]))
    elif op == "int":
        o = {"op": op, "n": r.choice([n, n * 99991, 2147483647, -2147483647])}
    elif op == "bool":
        o["s"] = codes(r.choice(["true", "false", "yes", "no", "1", "0", "", "True", "2", "truee", "n"]))
    elif op == "time":
        o = {"op": op, "n": r.choice([abs(n), r.randrange(200), r.randrange(10000), r.randrange(400000)])}
    elif op == "list":
        o = {"op": op, "v": [r.randrange(-20, 20) for _ in range(r.randrange(5))]}
    elif op == "stack":
        o = {"op": op, "l": [{"c": r.choice(["push", "push", "pop", "set"]), "s": rs(r, "ab", 2)} for _ in range(r.randrange(9))]}
    elif op == "dict":
        o.update(l=[{"k": rs(r, "ab", 1), "n": r.randrange(3)} for _ in range(r.randrange(4))], s=rs(r, "ab", 1), n=r.randrange(3))
    return o


def run(ctx):
    exe = ctx.build("strings")
    q = ctx.quick

    def fam(f, alpha, n, args="", ys="", chars="ab", ints="{-6, -2, -1, 0, 1, 2, 3, 6}"):
        def go():
            r = ctx.explore("StrEnum", consts={"Family": f'"{f}"', "Alpha": A(alpha), "StrLen": n, "Args": S(*args) if args else "{<<>>}", "Ys": S(*ys) if ys else "{<<>>}",
                                               "Chars": A(chars), "Ints": ints}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"{f}: every string of up to {n} of {alpha!r}")
        return go

    def traces():
        r = ctx.rng
        segs = [{"ops": [rop(r) for _ in range(100)]} for _ in range(30 if q else 300)]
        tr = ctx.record(exe, segs)
        ctx.validate("StrTrace", tr, exe=exe, label="string tools", timeout=850)

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "split" and e["ret"]["v"])
            c = [dict(e) for e in t[:i + 1]]
            c[i] = {**c[i], "ret": {"ok": True, "v": c[i]["ret"]["v"] + [[97]]}}
            yield c
        ctx.binding_check("StrTrace", tr, corrupt)
    two = ["", "a", "b", "ab", "ba", "aa", "aab", "aba"]
    k = 0 if q else 2
    ctx.par(traces,
            fam("cut", "aB \xe9", 4 + k // 2, chars="aB"), fam("find", "ab", 6 + k, args=two, ints="{0, 1, 2, 3, 4, 7}"),
            fam("split", "a, ", 6 + k // 2, args=["", ",", ", ", "a,", "a", " a,"]),
            fam("replace", "ab", 6 + k, args=two[1:], ys=["", "a", "ab", "b", "ba"]),
            fam("match", "ab*?", 4 + k // 2, args=["", "a", "b", "ab", "ba", "aab", "abab", "*", "?", "a*"]),
            fam("match", "a[]!-", 4 + k // 2, args=["", "a", "b", "-", "!", "[", "]", "[a", "a]", "[]", "[a]", "!a"]),
            fam("matcher", "a*;", 5 + k // 2, args=["", "a", "aa", ";", "a;", "b"]),
            fam("num", " -+01x", 4 + k // 2), fam("num", "truefalsyno", 3 if q else 4))
    ctx.need_ops(["left", "right", "mid", "in", "nth", "begins", "begins_at", "ends", "contains", "char", "trim", "trim_ws", "split", "split_first", "split_last", "replace",
                  "replace_char", "latin", "case", "copy", "keyval", "concat", "concat2", "append", "format", "match", "matcher", "is_pattern", "num", "int", "bool", "time", "list", "stack", "dict"])
    ctx.assumptions += ["separator and trim sets without NUL characters", "character classes such as [:alpha:] and locale collation inside [..] patterns are not specified"]
