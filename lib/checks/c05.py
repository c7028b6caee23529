"""Tags and completion matching: many concurrent requests, completers that answer late, in pieces and interleaved, time-outs."""
from .fabscen import *

CL = {"tag_shared", "tag_range", "rid_foreign", "result_from_other_completions", "returned_early", "stalled", "unanswered", "answer_without_request",
      "read_value", "read_length", "access_failed", "access_never_returns"}


def burst(g, t, f, regs, n):
    """n concurrent single requests of agent f."""
    out = []
    for _ in range(n):
        r, own, io, size = g.choice(regs)
        if io:
            out.append(dict(op="raw", f=f, ty="IORd", r=r, o=g.randrange(size // 4) * 4, n=1, fb=15))
        else:
            nd = g.choice([1, 1, 2, 5, 17, 40, 64, 100])
            nd = min(nd, size // 4)
            o = g.randrange(0, size - 4 * nd + 1) & ~3
            if (o & 0xfff) + 4 * nd > 4096:
                o &= ~0xfff
            out.append(dict(op="raw", f=f, ty="MRd", r=r, o=o, n=nd, fb=15, lb=15 if nd > 1 else 0))
    return [[x] for x in out]


def timeouts(g, t, f, regs, lim):
    """Requests that time out; their late completions must not reach anybody (fewer than the tags there are: a tag is not
    used again while an abandoned request's answer may still come, otherwise no requester could tell them apart)."""
    mem = [x for x in regs if not x[2]]
    if not mem:
        return []
    owners = sorted({x[1] for x in mem})
    st = [dict(op="lazy", f=owners, d=[3000, 5000])]
    for b in burst(g, t, f, mem, min(g.randrange(1, 6), max(1, lim - 1))):
        st.append(dict(b[0], to=g.choice([400, 900])))
    st += [dict(op="wait", t=40000), dict(op="lazy", f=owners, d=[0, 60])]
    st += [dict(op="par", b=burst(g, t, f, mem, g.randrange(5, 60)))]
    return st


def run(ctx):
    g = ctx.rng
    ctx.model("TxnMC", "SPECIFICATION Spec\nCONSTANTS Tags=%d Reqs=%d Pieces=2 Late=TRUE\nINVARIANTS Unique Right\nPROPERTY Served\nCHECK_DEADLOCK FALSE\n" % ctx.pick((2, 3), (2, 4)), name="TxnMC")
    sc = []
    for k in range(ctx.pick(40, 400)):
        t = topo(g, n=g.randrange(1, 4), leaf=lambda: ep(g, nf=g.choice([1, 1, 2]), maxlog=14, etag=g.randrange(2), tags=g.choice([256, 256, 3, 17, 40])))
        t["mps"] = g.randrange(3)
        regs, fs, same = regions(t), eps(t), sameport(t)
        st = [dict(op="enum")]
        lim = {f: s.get("tags", 256) for f, kind, s in walk(t["ports"]) if kind == "ep"}
        lim[0] = 256
        if g.random() < .5:
            lim[0] = g.choice([2, 5, 32, 64, 256, 300])
            st.append(dict(op="set", f=0, v=dict(tags=lim[0])))
        st += settings(g, t)
        m = g.randrange(3)
        ags = [0] + fs
        tg = {f: [x for x in regs if x[1] != f and (f == 0 or x[1] == 0 or x[1] not in same[f])] for f in ags}
        ags = [f for f in ags if tg[f]]
        if m < 2:
            st.append(dict(op="lazy", f=[0] + fs, d=g.choice([[0, 0], [0, 100], [0, 900], [200, 2000]])))
        if m == 2:
            f = g.choice(ags)
            st += timeouts(g, t, f, tg[f], lim[f])
        elif m == 1:
            b = []
            for f in g.sample(ags, min(len(ags), 2)):
                b += burst(g, t, f, tg[f], g.choice([10, 50, 140, 300]) // min(len(ags), 2))
            st.append(dict(op="par", b=b))
            st += phase(g, t, 3, 4)
        else:
            st += phase(g, t, g.randrange(2, 9), 6) + phase(g, t, 4, 8, big=5000)
        st.append(dict(op="dump", t=3000))
        sc.append(scen(t, st, sid=k, tail=12000, events=["snd", "rcv"]))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "snd" and e["ty"] in ("MRd", "MRd64", "IORd", "IOWr", "CfgRd1", "CfgWr1"):
                ctx.count("requests")
    ctx.report(ctx.validate("TxnTrace", runs), CL)
    ctx.report(ctx.validate("MemTrace", [(s, [e for e in ev if e["ev"] not in ("snd", "rcv")]) for s, ev in runs]), CL)
