from vf import beh
from checks.c01 import EDITS, LOOKS, READS, segments


def corrupt(t):
    i = next(k for k, e in enumerate(t) if e["op"] in ("unaccessed", "log_unaccessed") and e["ret"].get("v"))
    c = [dict(e) for e in t[:i + 1]]
    c[i] = {**c[i], "ret": {"ok": True, "v": []}}
    yield c
    i = next(k for k, e in enumerate(t) if e["op"] == "get_str" and e["ret"]["ok"] and e["t"] == [] and e["ret"]["v"])
    c = [dict(e) for e in t[:i + 1]]
    c[i] = {**c[i], "obs": {**c[i]["obs"], "a": False}}
    yield c


def run(ctx):
    exe = ctx.build("prop_tree")
    q = ctx.quick

    def graph(c):
        r = ctx.explore("PropTreeMC", "PropTree.cfg", c, timeout=800)
        ctx.replay(exe, beh(ctx.emitted(r)), f"every transition {c}")

    def sim():
        r = ctx.simulate("PropTreeMC", "PropTreeSim.cfg", {"Groups": '{"read", "build"}', "MaxNodes": 7}, num=25 if q else 400, depth=32, timeout=800)
        ctx.replay(exe, beh(ctx.emitted(r)), "long runs")

    def traces():
        tr = ctx.record(exe, segments(ctx.rng, 40 if q else 400, 150, [(EDITS, 0.5), (READS, 1.0), (LOOKS, 0.4)]))
        ctx.validate("PropTreeTrace", tr, exe=exe, label="recorded runs", timeout=800)
        ctx.binding_check("PropTreeTrace", tr, corrupt)
    g = '{"read", "build"}'
    graphs = [{"MaxNodes": 2, "Groups": g}, {"MaxNodes": 3, "MaxLen": 3 if q else 5, "Groups": g},
              {"MaxNodes": 2, "MaxLen": 4, "Groups": '{"read", "build", "edit"}', "K": '{"a"}'}]
    ctx.par(sim, traces, *[lambda c=c: graph(c) for c in graphs])
    ctx.need_ops(READS)
