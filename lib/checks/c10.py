"""Routing: every TLP on every link, over random hierarchies, with traffic from and to everywhere, existing or not."""
from .fabscen import *
from .c06 import holes

CL = {"route_loops_down", "route_wrong_link", "cfg_type0_off_bus", "cfg_type1_on_target_bus", "cfg_upstream", "route_foreign_source",
      "route_not_local", "delivered_to_wrong_function", "cfg_type1_delivered"}


def nodes(t):
    return [(f, k) for f, k, s in walk(t["ports"])]


def configs(g, t, n):
    """Configuration requests of the root complex to functions and bridges, present and absent."""
    fs = [f for f, k in nodes(t)]
    out = []
    for _ in range(n):
        w = g.random() < .25
        s = dict(op="raw", f=0, ty="CfgWr1" if w else "CfgRd1", abs=4 * g.choice([15, 3, 3, 15]) if w else 4 * g.randrange(0, 64), n=1, fb=g.choice([15, 1, 3]))
        if w:
            s["data"] = [0, 0, 0, 0]
            s["fb"] = 1
        if g.random() < .5:
            s["absent"] = g.randrange(1 << 20)
        else:
            s["cf"] = g.choice(fs)
        out.append(s)
    return out


def rawholes(g, t, n):
    return [dict(op="raw", f=g.choice([0] + eps(t)), ty=g.choice(["MRd", "MWr", "IORd", "IOWr"]), hole=g.randrange(1 << 20), n=1, fb=g.choice([15, 15, 0, 6]),
                 tc=0, at=0) for _ in range(n)]


def strays(g, t, n):
    out = []
    for _ in range(n):
        s = dict(op="stray", f=g.choice([0] + eps(t)), tag=g.randrange(256), n=g.choice([0, 1, 8]), to=g.choice([0] + [f for f, k in nodes(t)]))
        if g.random() < .5:
            s["absent"] = g.randrange(1 << 20)
        if s["f"] == s["to"] or s["f"] and s["to"] in sameport(t).get(s["f"], ()):
            s["absent"] = g.randrange(1 << 20)
        out.append(s)
    return out


def bbars(g, t):
    """BARs in some bridges too."""
    for f, k, s in walk(t["ports"]):
        if k in ("port", "up") and g.random() < .25:
            s["pbars" if k == "port" else "ubars"] = [dict(size=1 << g.randrange(7, 13), ext=g.randrange(2))]


def huge(g, t):
    """BARs that leave no writable bits in the lower half of the register pair."""
    for f, k, s in walk(t["ports"]):
        if k == "ep" and g.random() < .5 and sum(2 if b.get("ext") else 1 for b in s["bars"]) + sum(b.get("skip", 0) for b in s["bars"]) < 5:
            s["bars"].append(dict(size=1 << g.choice([31, 32, 33, 36]), ext=1, pf=1))


def run(ctx):
    g = ctx.rng
    for n, sl in ctx.pick([(7, "TRUE")], [(9, "TRUE"), (9, "FALSE")]):
        ctx.model("RouteMC", f"SPECIFICATION Spec\nCONSTANTS N={n} Slack={sl}\nINVARIANTS Crossing Delivered Dropped\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n", name=f"RouteMC nodes={n} slack={sl}")
    sc = []
    for k in range(ctx.pick(64, 500)):
        t = topo(g, n=g.randrange(1, ctx.pick(7, 11)), leaf=lambda: ep(g, nf=g.choice([1, 1, 2, 4]), gaps=g.random() < .5, mpss=g.randrange(0, 6), maxlog=13))
        t["mps"] = g.randrange(6)
        bbars(g, t)
        if g.random() < .4:
            huge(g, t)
        st = [dict(op="enum")] + settings(g, t)
        for _ in range(ctx.pick(2, 3)):
            st.append(dict(op="par", b=[configs(g, t, 8), rawholes(g, t, 6), holes(g, t, 3), strays(g, t, 6) + [dict(op="wait", t=2000)]]))
            st += phase(g, t, g.randrange(1, 4), 5, big=600)
        sc.append(scen(t, st, sid=k, events=["w", "rcv"]))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "w":
                ctx.count("link_crossings")
            elif e["ev"] == "rcv":
                ctx.count("deliveries")
    ctx.report(ctx.validate("RouteTrace", runs), CL)
