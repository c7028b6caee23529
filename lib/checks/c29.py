"""Enabling of functions: model over all small hierarchies, random sequences of host operations on real ones."""
from .fabscen import *


def run(ctx):
    g = ctx.rng
    for n, k in ctx.pick([(5, 4)], [(6, 4), (5, 5)]):
        ctx.model("EnableMC", f"SPECIFICATION Spec\nCONSTANTS N={n} L={k}\nINVARIANTS Usable Kept Local\nCHECK_DEADLOCK FALSE\n", name=f"EnableMC N={n} L={k}")
    sc = []
    for k in range(ctx.pick(120, 1200)):
        t = dict(ports=forest(g, g.randrange(1, 7), depth=g.choice([2, 3, 4]), leaf=lambda: ep(g, nf=g.choice([1, 1, 2, 4]), nb=g.choice([0, 1, 2]), maxlog=10)))
        fs = [f for f, _, _ in walk(t["ports"])]
        st = [dict(op="enum", enable=0)]
        v = []
        for f in fs:
            x = g.choice([0, 0, 0, 0x40, 0x140, 0x400, 0x546])
            v.append([f, x | g.choice([0, 0, 0, 1, 2, 3, 4, 7])])
        st.append(dict(op="cmds", v=v))
        cnt = {f: 0 for f in fs}
        for _ in range(g.randrange(3, ctx.pick(30, 60))):
            f = g.choice(fs)
            a = g.choice(["enable", "enable", "enable", "master", "clear", "disable", "disable"])
            if a == "disable":
                c = [x for x in fs if cnt[x]]
                if not c:
                    continue
                f = g.choice(c)
                cnt[f] -= 1
            cnt[f] += a == "enable"
            st.append(dict(op="ctl", f=f, a=a, v=g.randrange(2)))
        sc.append(dict(driver="enable", sid=k, topo=t, steps=st, cost=1, events=[]))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "ctl":
                ctx.count("operations_" + e["op"])
    ctx.report(ctx.validate("EnableTrace", runs))
