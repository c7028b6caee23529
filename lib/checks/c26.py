"""Configuration accesses of the host through every entry point, against the register accesses they cause."""
from .fabscen import *

CAPS = [(1, 0), (5, 0), (0x10, 0), (0x11, 0), (1, 1), (0x19, 1), (2, 1), (9, 0)]


def access(g, f, kind, retry, timed):
    """Steps of one access to function f (-1: none)."""
    s = dict(op="cfgx", f=f, api=g.choice(["rc", "dev"]), w=int(g.random() < .4))
    if f == -1:
        s.update(absent=g.randrange(1 << 20), api="rc")
        del s["f"]
    ws = g.choice([0, 1, 2, 4, 8, 3])
    n = ws * g.choice([1, 1, 2, 3]) if ws else g.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 13, 24])
    out = []
    if f != -1 and g.random() < .4:
        s["cap"] = list(g.choice(CAPS))
        s["o"] = g.choice([0, g.randrange(0, 32)])
    else:
        j = g.random()
        s["o"] = g.randrange(0, 4) if j < .2 else g.randrange(0, 0x80) if j < .6 else g.randrange(0x80, 0x200) if j < .8 else g.randrange(0x200, 0x1000)
    if kind != "ep" and f != -1 and s["w"]:
        # registers of bridges whose contents do not matter for routing
        s.pop("cap", None)
        s["o"], m = g.choice([(0, 4), (8, 4), (0xc, 2), (0x3c, 2), (0x34, 8), (0x200, 16), (0x6, 2), (0x1e, 2)])
        s["o"] += g.randrange(m)
        n = min(n, m)
    n = min(n, 0x1000 - s["o"])
    s["n"] = n
    if ws and n and n % ws == 0:
        s["h"] = [ws, g.randrange(2), g.randrange(1, 4)]
    if retry and kind == "ep" and g.random() < .15:
        any = g.randrange(2)
        out.append(dict(op="retry", f=f, n=g.randrange(1, 4), any=any))
        s.update(w=0)
        if not any:
            s.update(o=g.randrange(4))
            s.pop("cap", None)
        elif "cap" in s:
            s.pop("cap")
    if timed and kind == "ep" and f != -1:
        s.update(w=0, to=1)
    return out + [s]


def run(ctx):
    g = ctx.rng
    ctx.model("CfgAccessMC", "SPECIFICATION Spec\nCONSTANTS Regs=%d MaxLen=%d MaxCrs=2\nINVARIANTS Exact Reads Within\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % ctx.pick((3, 9), (5, 17)), name="CfgAccessMC")
    sc = []
    for k in range(ctx.pick(50, 500)):
        t = topo(g, n=g.randrange(1, ctx.pick(6, 9)), leaf=lambda: ep(g, nf=g.choice([1, 1, 2, 4]), nb=g.choice([0, 1, 3]), maxlog=g.choice([9, 13]),
                                                                     msi=g.choice([None, dict(mmc=3)])))
        st = [dict(op="enum"), dict(op="tapcfg")]
        fs = [(f, kind) for f, kind, _ in walk(t["ports"])]
        m = min(len(fs) + 1, g.randrange(1, 5))
        vis = g.randrange(2)
        for r in range(ctx.pick(3, 6)):
            fl = fs + [(-1, "none")]
            g.shuffle(fl)
            brs = [[] for _ in range(m)]
            for i, (f, kind) in enumerate(fl):
                for _ in range(g.randrange(1, ctx.pick(5, 8))):
                    brs[i % m] += access(g, f, kind, True, False)
            st.append(dict(op="par", b=[b for b in brs if b]))
            if g.random() < .3:
                st.append(dict(op="vis", v=g.randrange(2)))
        if g.random() < .3:
            e = [f for f, kind in fs if kind == "ep"]
            for _ in range(3):
                if e:
                    f = g.choice(e)
                    st += access(g, f, "ep", False, True) + [dict(op="wait", t=20000)]
        sc.append(scen(t, st, sid=k, events=[]))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] in ("ccall", "crd", "cwr", "retry"):
                ctx.count(e["ev"])
    ctx.report(ctx.validate("CfgAccTrace", runs))
