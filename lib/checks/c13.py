"""Enumeration: every hierarchy up to a bound, plus random ones, against the declarative numbering."""
from .fabscen import *


def leaf(g):
    def mk():
        if g.random() < .1:      # integrated in the root complex or a switch
            return dict(t="ie", fns=[fn(g, nb=g.randrange(0, 3), maxlog=13)])
        e = ep(g, nf=g.choice([1, 1, 1, 2, 3, 8]), gaps=g.random() < .6, nb=g.randrange(0, 3), maxlog=13)
        if g.random() < .12:
            for f in e["fns"]:
                if g.random() < .6:
                    f["crs"] = g.choice([1, 2, 3, 5, 7])
        return e
    return mk


def run(ctx):
    g = ctx.rng
    for n, c in ctx.pick([(3, 1)], [(3, 2), (4, 1), (5, 0)]):
        ctx.model("EnumMC", f"SPECIFICATION Spec\nCONSTANTS N={n} C={c}\nINVARIANTS UniqueClaim ReachRight Final\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n",
                  name=f"EnumMC nodes={n} retries={c}")
    sc = []
    for n in range(1, ctx.pick(4, 6) + 1):
        for k, f in enumerate(forests(ctx, n)):
            t = dict(ports=shape(f, leaf(g)), mps=g.randrange(0, 6))
            steps = [dict(op="enum", enable=0)]
            if g.random() < .25:
                steps.append(dict(op="enum", enable=0))
            sc.append(scen(t, steps, sid=f"f{n}_{k}"))
    for k in range(ctx.pick(16, 160)):
        t = dict(ports=forest(g, g.randrange(3, ctx.pick(10, 24)), depth=g.randrange(1, 6), leaf=leaf(g)))
        sc.append(scen(t, [dict(op="enum", enable=0)], sid=f"r{k}"))
    # every device number of a bus in use
    for k in range(ctx.pick(2, 6)):
        full = [dict(t="ie", fns=[fn(g, nb=g.randrange(0, 2), maxlog=9)]) if g.random() < .7 else ep(g, nb=0) for _ in range(31)]
        sc.append(scen(dict(ports=[dict(t="sw", ports=full)] if k % 2 else full), [dict(op="enum", enable=0)], sid=f"full{k}"))
    # functions that take milliseconds to get ready
    for k in range(ctx.pick(2, 6)):
        t = dict(ports=[ep(g, nf=g.choice([1, 2]), nb=1, maxlog=9)])
        t["ports"][0]["fns"][-1]["crs"] = g.choice([8, 9, 10])
        sc.append(scen(t, [dict(op="enum", enable=0)], sid=f"slow{k}"))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "tree":
                ctx.count("enumerations")
                ctx.count("functions", len(e["devs"]))
    ctx.report(ctx.validate("EnumTrace", runs))
