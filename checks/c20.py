import fnmatch
from vf import beh

BASE = ["a", "b", "c", "x.txt", "y.txt"]
UNIV = BASE + [f"{n} ({i})" for n in BASE for i in range(1, 9)] + [f" ({i})" for i in range(1, 9)]


def names(pats):
    return [n for n in UNIV if any(fnmatch.fnmatchcase(n, p) for p in pats.split(";") if p)]


def segments(ctx, n, length):
    r = ctx.rng

    def P(slash=0.15, lo=1):
        return {"abs": r.random() < 0.5, "c": [r.choice(BASE) for _ in range(r.choice([lo, 1, 1, 2, 2, 3]))], "slash": r.random() < slash}
    segs = []
    for _ in range(n):
        ops, m = [], 0
        for k in range(length):
            x = r.choice(["probe", "mkdirs", "save", "save", "load", "copy", "remove", "find_unique", "create_unique", "race", "ff", "find", "try_find", "try_dirs", "list",
                          "list", "cd", "mtime", "sock", "save_full"])
            if x in ("probe", "mkdirs", "remove"):
                ops.append({"op": x, "p": P()})
            elif x == "save":
                ops.append({"op": x, "p": P(0), "app": r.random() < 0.4, "ec": r.random() < 0.5, "txt": f"line {k}\n" * r.choice([0, 1, 1, 3, 200])})
            elif x == "load":
                ops.append({"op": x, "p": P(), "ec": r.random() < 0.5})
            elif x == "copy":
                ops.append({"op": x, "p": P(0), "d": P(0), "over": r.random() < 0.5, "ec": r.random() < 0.5})
            elif x in ("find_unique", "create_unique"):
                ops.append({"op": x, "p": P(), "max": r.choice([1, 2, 5, 30])})
            elif x == "race" and r.random() < 0.5:
                ops.append({"op": x, "p": P(0), "n": r.choice([2, 3, 6])})
            elif x == "ff":
                ops.append({"op": r.choice(["ff", "ff_other"]), "p": P(0.3)} if r.random() < 0.7 else {"op": "ff", "p": {"abs": False, "c": [], "slash": False}})
                if ops[-1]["op"] == "ff_other":
                    ops[-1]["p"]["abs"] = True
            elif x in ("find", "try_find"):
                ops.append({"op": x, "ps": [P(0.05) for _ in range(r.choice([1, 2]))]})
            elif x == "try_dirs":
                ops.append({"op": x, "p": P(0), "ds": [P(0.3) for _ in range(r.randrange(4))]})
            elif x == "list":
                a, b = r.choice(["*", "a*", "*.txt", "?", "b;c", "x.*;* (1)"]), r.choice(["", "", "a*", "*.txt", "b;?.txt"])
                p = {"abs": True, "c": [], "slash": False} if r.random() < 0.5 else P(0.2)
                ops.append({"op": x, "p": p, "incs": a, "inc": names(a), "excs": b, "exc": names(b), "rec": r.random() < 0.7, "lv": r.choice([-1, -1, 0, 1, 2])})
            elif x == "cd":
                p = {"abs": True, "c": [], "slash": False} if r.random() < 0.5 else {**P(), "abs": True}
                ops.append({"op": x, "p": p})
            elif x == "mtime":
                ops.append({"op": x, "p": P(0), "m": 1500000000 + k})
            elif x == "sock":
                if r.random() < 0.3:
                    ops.append({"op": x, "p": {"abs": True, "c": [r.choice(BASE)], "slash": False}})
            elif x == "save_full":
                if r.random() < 0.2:
                    ops.append({"op": x, "app": r.random() < 0.5})
        segs.append({"ops": ops})
    return segs


def run(ctx):
    exe = ctx.build("filesys")
    q = ctx.quick

    def every():
        r = ctx.explore("FileSys", consts={} if q else {"Names": '{"a", "b"}', "MaxNodes": 4, "MaxLen": 7}, timeout=850)
        ctx.replay(exe, beh(ctx.emitted(r)), "every transition")

    def side():
        # two files side by side, and a chain of folders: what one name of depth two does not reach
        r = ctx.explore("FileSys", consts={"Names": '{"a", "b"}', "MaxDepth": 1, "MaxNodes": 3, "MaxLen": 7}, timeout=850)
        ctx.replay(exe, beh(ctx.emitted(r)), "two files")
        r = ctx.explore("FileSys", consts={"MaxDepth": 3, "MaxNodes": 4, "MaxLen": 5} if q else {"MaxDepth": 4, "MaxNodes": 5, "MaxLen": 6}, timeout=850)
        ctx.replay(exe, beh(ctx.emitted(r)), "a chain")

    def runs():
        r = ctx.simulate("FileSys", "FileSysSim.cfg", num=60 if q else 1500, depth=32, timeout=850)
        ctx.replay(exe, beh(ctx.emitted(r)), "long runs")

    def traces():
        tr = ctx.record(exe, segments(ctx, 40 if q else 600, 80), label="filesys")
        ctx.validate("FileSysTrace", tr, exe=exe, label="recorded runs")

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "create_unique" and e["ret"]["ok"])
            c = [dict(e) for e in t[:i + 1]]
            c[i] = {**c[i], "ret": {"ok": True, "v": c[i]["ret"]["v"] + " (1)"}}
            yield c
        ctx.binding_check("FileSysTrace", tr, corrupt)
    ctx.par(every, side, runs, traces)
    ctx.need_ops("probe mkdirs save save_full load copy remove find_unique create_unique race ff ff_other find find_abs try_find try_dirs list cd mtime sock env".split())
    ctx.assumptions.append("no symbolic links, and nothing outside the helpers changes the tree meanwhile; the helpers run as an unprivileged user that owns the scratch tree; "
                           "removing the current folder is left out; POSIX file systems")
