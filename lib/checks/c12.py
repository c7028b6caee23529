"""Flows: every pair of source and destination sees a lossless unaltered FIFO per class, under contention, back-pressure and tight credits."""
from .fabscen import *

CL = {"flow_reordered", "flow_misdelivered", "flow_duplicated", "flow_altered_or_duplicated", "flow_lost", "stalled"}


def fc(g, all):
    """A credit allocation that just admits a TLP of 128 bytes of each class (or of posted ones only)."""
    ph, nh, ch = (g.choice([1, 1, 2, 3, 8]) for _ in range(3))
    pd, cd = g.choice([8, 9, 12, 40]), g.choice([8, 9, 12, 40])
    return [ph, pd, nh, g.choice([1, 2, 4]), ch, cd] if all else [ph, pd, 200, 200, 200, 1800]


def tight(g, ports, all):
    for p in ports:
        if not all or g.random() < .7:
            p["fc"] = fc(g, all)
        if not all or g.random() < .7:
            p["port"] = dict(fc=fc(g, all))
        if p["t"] == "sw":
            tight(g, p["ports"], all)


def streams(g, t, n, agents, write, reader=None):
    """Branches with streams of raw requests.  With all credits tight only one agent (reader) issues non-posted requests:
    requests in both directions can then deadlock the fabric (see the known finding), which is judged separately."""
    regs, same = regions(t), sameport(t)
    b = []
    for f in agents:
        tg = [(r, i, 0, size) for r, own, i, size in regs if own != f and (f == 0 or own == 0 or own not in same[f])]
        if reader is not None and f != reader:
            tg = [x for x in tg if not x[1]]
        if not tg:
            continue
        for _ in range(g.choice([1, 2, 4])):
            b.append(raws(g, f, tg, n, mps=128, mrrs=512, write=write if reader in (None, f) else 1.0, big=True))
    return b


def mutual(g):
    """Many reads in both directions through one switch with the default credits: everybody's requests block everybody's completions."""
    t = dict(ports=[dict(t="sw", ports=[ep(g, nb=0), ep(g, nb=0)])], host=[dict(size=16384)], mps=0)
    for _, kind, s in walk(t["ports"]):
        if kind == "ep":
            s["bars"] = [dict(size=16384)]
    br = []
    for f in [0] + eps(t):
        rs = [r for r, own, io, size in regions(t) if own != f]
        br += [[dict(op="raw", f=f, ty="MRd", r=rs[i % len(rs)], o=4096 * (i % 4), n=128, fb=15, lb=15)] for i in range(250)]
    return scen(t, [dict(op="enum"), dict(op="spawn", b=br), dict(op="wait", t=40000)], sid="mutual", events=["snd", "snt", "rcv"])


def run(ctx):
    g = ctx.rng
    for K, fr, r1, r2, w1, w2 in ctx.pick([(1, "FALSE", 3, 0, 2, 2), (1, "TRUE", 2, 2, 1, 1)], [(1, "FALSE", 5, 0, 3, 2), (2, "FALSE", 5, 0, 2, 2), (1, "TRUE", 3, 3, 1, 1), (2, "TRUE", 4, 3, 1, 1)]):
        ctx.model("FlowMC", f"SPECIFICATION Spec\nCONSTANTS K={K} Free={fr}\nR1={r1} R2={r2} W1={w1} W2={w2}\nINVARIANTS Fifo Limits\nPROPERTY Done\nCHECK_DEADLOCK FALSE\n",
                  name=f"FlowMC credits={K} freecpl={fr} requests={r1}/{r2} writes={w1}/{w2}")
    sc = [mutual(g)]
    for k in range(ctx.pick(48, 400)):
        t = topo(g, n=g.randrange(2, ctx.pick(7, 10)), leaf=lambda: ep(g, nf=g.choice([1, 1, 2]), maxlog=13))
        t["mps"] = 0
        ags = [0] + eps(t)
        m = k % 3
        if m:
            tight(g, t["ports"], m == 2)
        st = [dict(op="enum")]
        if g.random() < .6:
            st.append(dict(op="rxdelay", d=g.choice([[0, 30], [0, 5, 200], [0, 0, 0, 1000]])))
        st.append(dict(op="par", b=streams(g, t, ctx.pick(16, 24), ags, .6, g.choice(ags) if m == 2 else None)))
        sc.append(scen(t, st, sid=k, events=["snd", "snt", "rcv"], tail=20000))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "rcv":
                ctx.count("deliveries")
    ctx.report(ctx.validate("FlowTrace", runs), CL)
