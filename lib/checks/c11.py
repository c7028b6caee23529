"""Answers: every non-posted request, addressed to anything in any state, is answered once with the right status."""
from .fabscen import *
from .c06 import holes
from .c10 import configs, rawholes, bbars

CL = {"answer_without_request", "answer_refused", "answer_status", "answer_type", "answer_invented", "answer_from_wrong_function", "answer_too_long",
      "answer_attributes", "answer_retry", "unanswered", "stalled", "tag_shared"}


def retries(g, t):
    f = g.choice(eps(t))
    n = g.randrange(1, 4)
    return [dict(op="retry", f=f, n=n)] + [dict(op="raw", f=0, ty=g.choice(["CfgRd1", "CfgRd1", "CfgWr1"]), abs=g.choice([0, 0, 8, 44]), cf=f, n=1, fb=g.choice([15, 3]), data=[0, 0, 0, 0]) for _ in range(2 * n + 1)]


def run(ctx):
    g = ctx.rng
    ctx.model("TxnMC", "SPECIFICATION Spec\nCONSTANTS Tags=%d Reqs=%d Pieces=2 Late=TRUE\nINVARIANTS Unique Right\nPROPERTY Served\nCHECK_DEADLOCK FALSE\n" % ctx.pick((2, 3), (2, 4)), name="TxnMC")
    sc = []
    for k in range(ctx.pick(64, 500)):
        t = topo(g, n=g.randrange(1, ctx.pick(6, 10)), leaf=lambda: ep(g, nf=g.choice([1, 1, 2, 4]), gaps=g.random() < .5, mpss=g.randrange(0, 6), maxlog=13))
        t["mps"] = g.randrange(6)
        bbars(g, t)
        st = [dict(op="enum")] + settings(g, t)
        for _ in range(ctx.pick(3, 4)):
            for f in eps(t):
                if g.random() < .4:
                    st.append(dict(op="set", f=f, v=dict(cmd=4 | g.choice([0, 1, 2, 3]) | g.choice([0, 0x140]))))
            b = [configs(g, t, 5), rawholes(g, t, 8), holes(g, t, 3), rawbad(g, t, 4)]
            regs = regions(t)
            for _ in range(2):
                f = g.choice([0] + eps(t))
                same = sameport(t)
                tg = [(r, i, 0, size) for r, own, i, size in regs if own != f and (f == 0 or own == 0 or own not in same[f])]
                if tg:
                    b.append(raws(g, f, tg, 8, write=.3))
            st.append(dict(op="par", b=b))
            if g.random() < .5:
                st += retries(g, t)
            st.append(dict(op="wait", t=3000))
        sc.append(scen(t, st, sid=k, events=["snd", "rcv"], tail=6000))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "rcv" and e["ty"] in ("Cpl", "CplD"):
                ctx.count(f"answers_status_{e['st']}")
    ctx.report(ctx.validate("TxnTrace", runs), CL)
