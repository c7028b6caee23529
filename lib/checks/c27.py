"""Error status bits: model of what sets and clears them exhaustive over short histories; random hierarchies, poisoned TLPs, failures and clears on the real code."""
from .fabscen import *

CL = {"error_not_recorded", "error_invented"}


def send(g, t):
    regs = regions(t)
    same = sameport(t)
    f = g.choice([0] + eps(t) * 2)
    tg = [(r, io, size) for r, own, io, size in regs if own != f and (f == 0 or own == 0 or own not in same[f])]
    if g.random() < .15 or not tg:
        return [dict(op="send", f=f, ty=g.choice(["MRd", "MRd", "IORd", "IOWr"]), hole=g.randrange(30), n=1)]
    r, io, size = g.choice(tg)
    own = r // 10 if r < 900 else 0
    o = g.randrange(size // 4) * 4
    if io:
        return [dict(op="send", f=f, ty=g.choice(["IORd", "IOWr", "IOWr"]), r=r, o=o, n=1, ep=g.randrange(2))]
    n = g.choice([1, 1, 2, 5, 16])
    n = max(1, min(n, (size - o) // 4, (0x1000 - o % 0x1000) // 4))
    s = dict(op="send", f=f, ty=g.choice(["MWr", "MRd"]), r=r, o=o, n=n, ep=int(g.random() < .6))
    if s["ty"] == "MRd" and g.random() < .8:
        s["ep"] = int(g.random() < .1)
        return [dict(op="answer", f=own, r=dict(st=g.choice([0, 0, 0, 1, 4, 4]), ep=g.randrange(2))), s, dict(op="answer", f=own)]
    return [s]


def run(ctx):
    g = ctx.rng
    ctx.model("ErrStatMC", "SPECIFICATION Spec\nCONSTANT N = 2\nINVARIANTS Order Caused Clean Noticed\nCHECK_DEADLOCK FALSE\n", name="ErrStatMC")
    sc = []
    for k in range(ctx.pick(60, 500)):
        t = topo(g, n=g.randrange(1, ctx.pick(6, 8)), leaf=lambda: ep(g, nf=g.choice([1, 1, 2, 3]), maxlog=12))
        fs = [f for f, k2, s in walk(t["ports"])]
        st = [dict(op="enum")]
        for f in fs:
            if g.random() < .8:
                st.append(dict(op="per", f=f, per=int(g.random() < .7), bper=int(g.random() < .7)))
        st.append(dict(op="stat", f=[]))
        for _ in range(ctx.pick(10, 16)):
            for _ in range(g.randrange(1, 4)):
                st += send(g, t)
            if g.random() < .4:
                st.append(dict(op="bcpl", f=g.choice([f for f, k2, s in walk(t["ports"]) if k2 != "ep"] or [0]), to=g.choice([0] + eps(t) * 3), st=g.choice([0, 1, 4, 4]), ep=g.randrange(2)))
            if g.random() < .3:
                st.append(dict(op="tobr", f=g.choice([0] + eps(t) * 3), to=g.choice([f for f, k2, s in walk(t["ports"]) if k2 != "ep"] or [0]), st=g.choice([1, 4])))
            st.append(dict(op="stat", f=g.sample(fs, min(len(fs), 3)) if g.random() < .5 else []))
            for f in fs:
                x = g.random()
                if x < .35:
                    m = lambda: [n for n in ("mdpe", "sta", "rta", "rma") if g.random() < .7]
                    st.append(dict(op="clr", f=f, pri=m(), sec=m(), how=g.randrange(1, 4)))
                elif x < .45:
                    st.append(dict(op="per", f=f, per=g.randrange(2), bper=g.randrange(2)))
            if g.random() < .3:
                st.append(dict(op="stat", f=[], t=10))
        st.append(dict(op="stat", f=[]))
        st = [x for x in st if not (x["op"] == "tobr" and not x["to"] or x["op"] == "bcpl" and not x["f"])]
        sc.append(dict(scen(t, st, sid=k, events=["snd", "rcv"]), driver="errstat"))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "stat":
                for b in e["pri"]:
                    ctx.count("seen_pri_" + b)
                for b in e["sec"]:
                    ctx.count("seen_sec_" + b)
    ctx.report(ctx.validate("ErrTrace", runs), CL)
