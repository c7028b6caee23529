"""Requests generated for public accesses: well formed, minimal, an exact tiling."""
from .fabscen import *


def run(ctx):
    g = ctx.rng
    ctx.model("SplitMC", "SPECIFICATION Spec\nCONSTANTS P=%d M=%d DW=2 L=%d\nINVARIANT Good\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n" % ctx.pick((16, 8, 24), (32, 16, 48)), name="SplitMC")
    sc = []
    for k in range(ctx.pick(96, 700)):
        t = topo(g, n=g.randrange(1, 4), leaf=lambda: ep(g, nf=1, mpss=g.randrange(0, 6), maxlog=15))
        t["mps"] = g.randrange(6)
        st = [dict(op="enum")]
        for _ in range(2):
            st += settings(g, t) + phase(g, t, g.randrange(1, 3), ctx.pick(9, 14), big=g.choice([300, 3000, 9000]))
        sc.append(scen(t, st, sid=k, data=1, events=["snd"]))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "snd" and e["ty"] in ("MRd", "MRd64", "MWr", "MWr64", "IORd", "IOWr"):
                ctx.count("requests")
    ctx.report(ctx.validate("ReqTrace", runs))
