"""Address assignment in random hierarchies, against the declarative predicates of ResTrace."""
from .fabscen import *


def run(ctx):
    g = ctx.rng
    ctx.model("ResMC", "SPECIFICATION Spec\nCONSTANTS N=%d G=4 Sizes={0,1,2,8} PreAlign=TRUE\nINVARIANT Good\nCHECK_DEADLOCK FALSE\n" % ctx.pick(4, 5), name="ResMC")

    def leaf():
        e = leaf1()
        for f in e["fns"]:
            for b in f["bars"]:
                if b.get("ext") and b.get("pf") and g.random() < .1:
                    b["size"] = 1 << g.randrange(28, 37)
        return e

    def leaf1():
        return ep(g, nf=g.choice([1, 1, 2, 4]), maxlog=g.choice([10, 14, 20, 24]), kinds=g.choice(["mmpxiq", "pq", "ii", "x", "mpi"]),
                  nb=g.choice([0, 1, 2, 3, 4, 6]), rom=g.choice([0, 0, 2048, 4096, 1 << 17, 1 << g.randrange(11, 27)]))
    sc = []
    for k in range(ctx.pick(48, 500)):
        t = topo(g, n=g.randrange(1, ctx.pick(8, 12)), leaf=leaf)
        for _, kind, p in walk(t["ports"]):
            if g.random() < .15:
                if kind == "port":
                    p["pbars"] = [bar(g, 14, "mmi")]
                elif kind == "up":
                    p["ubars"] = [bar(g, 16, "mpxi")]
        steps = [dict(op="enum", enable=0)]
        if g.random() < .2:
            steps.append(dict(op="enum", enable=0))
        if g.random() < .4:
            steps.append(dict(op="reprobe"))
        sc.append(scen(t, steps, sid=k))
    # many I/O and memory windows: beyond 64 KB of I/O
    for k in range(ctx.pick(3, 20)):
        io = lambda: ep(g, nb=g.randrange(1, 3), kinds="iim", maxlog=12)
        t = dict(ports=[dict(t="sw", ports=[io() for _ in range(g.randrange(5, 13))]) for _ in range(g.randrange(1, 3))] + [io() for _ in range(g.randrange(0, 6))])
        sc.append(scen(t, [dict(op="enum", enable=0)], sid=f"w{k}"))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "tree":
                for d in e["devs"]:
                    ctx.count("bars", len(d["bars"]))
    ctx.report(ctx.validate("ResTrace", runs))
