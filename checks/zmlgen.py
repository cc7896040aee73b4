"""Random trees and texts for the ZML drivers (recorded, then validated by TLC)."""


def codes(s):
    return list(s.encode("latin-1"))


def C(s):
    return "<<" + ", ".join(str(c) for c in codes(s)) + ">>"


def S(*l):
    return "{" + ", ".join(C(x) for x in l) + "}"


CH = ["a", "b", "1", " ", "=", "{", "}", "[", "]", "#", "/", "*", ":", "'", '"', "\\", "\n", "\t", "<", ">", "$", "@", ".", "\xe9", "\x01", "\x7f", "-", "0", "7"]


def rstr(r, n=6, key=False):
    while True:
        s = "".join(r.choice(CH) if r.random() < 0.6 else r.choice("abcxyz01") for _ in range(r.choice([0, 1, 1, 2, 3, n, 3 * n if not key else n])))
        if r.random() < 0.02:
            s += "x" * 70
        if key and (s == "" or s[0] == "$"):
            continue
        if not key and (s[:1] == "@" or "${" in s or (len(s) >= 2 and s[0] == "$")):
            continue
        return s


def rtree(r, depth, root=True, arr=False):
    n = {"v": [], "c": []}
    kind = "group" if root else r.choice(["leaf", "leaf", "leaf", "group", "array"])
    if depth == 0:
        kind = "leaf"
    if kind == "leaf" or (not root and not arr and r.random() < 0.3):
        n["v"] = codes(rstr(r))
    for _ in range(0 if kind == "leaf" else r.choice([0, 1, 2, 3, 6])):
        n["c"].append({"k": codes(rstr(r, key=True)) if kind == "group" else [], "n": rtree(r, depth - 1, False, kind == "array")})
    if arr and n["c"]:
        n["v"] = []
    return n


PIECES = ["a", "b", "ab", "=", " = ", "{", "}", "[", "]", "1 ", '"b c"', '""', "#x\n", "/*", "*/", "/* c */", "$m", "$n", "@a", "@a.b", '"${m}"',
          ": ", "\n", "'", '"', "\\", "a=1 ", "a = { b = 2 } ", "[ 1 2 3 ]", "$m = 5 ", "$n { a = 1 } ", "b = $m ", "c = @a ", "\"x${m}y\"", "//", " ", "\t", "<<", ">>", "\xe9"]


def rtext(r, n):
    t = []
    for _ in range(r.randrange(1, n)):
        k = r.random()
        if k < 0.45:
            t.append(r.choice(["a", "b", "ab", "x"]) + r.choice(["=", " = ", ": "]) + r.choice(["1", "x", '"q r"', '""', "'s'", "@a", "$m", '"${m}"', "[ 1 2 ]", "{ a = 1 b = [ ] }", "{ }", "[ a [ b ] { c = 1 } ]", "v { w = 1 }"]) + r.choice([" ", "\n", " # c\n", "/* } */ "]))
        elif k < 0.6:
            t.append(r.choice(["$m = 3 ", "$n = { p = 1 } ", "$m { $k = 1 q = $k } ", "g { $m = 7 a = $m } h = $m "]))
        elif k < 0.75:
            t.append(r.choice(["a {", "a [", "b = {", "}", "]", "} ", "] "]))
        else:
            t.append(r.choice(PIECES))
    s = "".join(t)
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        i = r.randrange(len(s) + 1)
        s = r.choice([s[:i] + s[i + 1:], s[:i] + r.choice(CH) + s[i:], s[:i]])
    return s.replace("<<", "<")
