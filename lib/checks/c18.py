"""Settings: mixed capabilities of all components, legality after enumeration, effect of changes on the next requests."""
from .fabscen import *


def caps(g, t):
    """Different payload sizes and tag support everywhere."""
    def ports(ps, up):
        for p in ps:
            if g.random() < .6:
                p["pmpss"] = g.randrange(6)
            if p["t"] == "sw":
                if g.random() < .7:
                    p["mpss"] = g.randrange(6)
                p["etag"] = g.randrange(2)
                ports(p["ports"], p)
    ports(t["ports"], None)
    t["mps"] = g.randrange(6)
    t["mrrs"] = g.randrange(6)


def changes(g, t):
    out = []
    for f, kind, s in walk(t["ports"]):
        if kind != "ep":
            continue
        v = {}
        if g.random() < .4:
            v["lower"] = g.randrange(6)
        if g.random() < .6:
            v["mrrs"] = g.randrange(6)
        if g.random() < .5:
            v["etag"] = g.randrange(2) & s["etag"]
        if v:
            out.append(dict(op="set", f=f, v=v))
    return out


def run(ctx):
    g = ctx.rng
    for n, m in ctx.pick([(4, 2)], [(5, 2), (4, 3)]):
        ctx.model("MpsMC", f"SPECIFICATION Spec\nCONSTANTS N={n} M={m}\nINVARIANT Final\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n", name=f"MpsMC nodes={n} sizes=0..{m}")
    sc = []
    for k in range(ctx.pick(64, 500)):
        t = topo(g, n=g.randrange(1, ctx.pick(6, 10)), leaf=lambda: ep(g, nf=g.choice([1, 1, 2, 3]), mpss=g.randrange(6), etag=g.randrange(2), maxlog=14))
        if g.random() < .6:
            for _, kind, s in walk(t["ports"]):
                if kind == "ep":
                    s["mpss"] = g.randrange(6)
        caps(g, t)
        st = [dict(op="enum")]
        for _ in range(ctx.pick(3, 4)):
            st += phase(g, t, g.randrange(1, 4), 3, big=g.choice([600, 6000]), host_agent=.2)
            st += changes(g, t)
        if g.random() < .4:
            st += [dict(op="enum")] + phase(g, t, 2, 3, big=6000, host_agent=.2)
        sc.append(scen(t, st, sid=k, events=["w", "snd"]))
    # nothing but enumeration, over many capability mixes
    for k in range(ctx.pick(120, 1500)):
        t = topo(g, n=g.randrange(1, 6), leaf=lambda: ep(g, nf=g.choice([1, 2, 3, 4]), nb=0, etag=g.randrange(2)), host=False)
        for _, kind, s in walk(t["ports"]):
            if kind == "ep":
                s["mpss"] = g.randrange(6)
        caps(g, t)
        st = [dict(op="enum", enable=0)]
        if g.random() < .3:
            st += [dict(op="enum", enable=0)]
        sc.append(scen(t, st, sid=f"e{k}", events=[]))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "tree":
                ctx.count("enumerations")
            elif e["ev"] == "w":
                ctx.count("link_crossings")
    ctx.report(ctx.validate("SetTrace", runs))
    ctx.report(ctx.validate("ReqTrace", [(s, [e for e in ev if e["ev"] != "w"]) for s, ev in runs if not isinstance(s["sid"], str)]), {"req_size", "req_minimal", "req_incomplete", "req_cover"})
