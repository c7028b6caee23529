"""Read completions: legal splits that describe the data exactly."""
from .fabscen import *

CL = {"cpl_unexpected", "cpl_status", "cpl_completer", "cpl_tc", "cpl_attr", "cpl_byte_count", "cpl_lower_address", "cpl_length", "cpl_mps",
      "cpl_rcb", "cpl_flags", "cpl_data", "cpl_tag_reused", "cpl_refused", "cpl_missing"}


def run(ctx):
    g = ctx.rng
    ctx.model("SplitMC", "SPECIFICATION Spec\nCONSTANTS P=%d M=%d DW=2 L=%d\nINVARIANT Good\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n" % ctx.pick((16, 8, 24), (32, 16, 48)), name="SplitMC")
    sc = []
    for k in range(ctx.pick(40, 400)):
        t = topo(g, n=g.randrange(1, 4), leaf=lambda: ep(g, nf=1, mpss=g.choice([0, 0, 0, 1, 2, 5]), maxlog=15))
        t["mps"] = g.choice([0, 0, 0, 1, 2, 5])
        t["rcb"], t["split"] = g.randrange(2), g.randrange(2)
        st = [dict(op="enum")]
        for f in [0] + eps(t):
            st.append(dict(op="set", f=f, v=dict(mrrs=g.randrange(6), **({} if f else dict(rcb=g.randrange(2))))))
        st += rawphase(g, t, 3, ctx.pick(12, 20), write=.1, big=True)
        st += phase(g, t, 3, 6, big=9000)
        sc.append(scen(t, st, sid=k, data=1, events=["snd", "rcv"]))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "snd" and e["ty"] == "CplD":
                ctx.count("completions")
    ctx.report(ctx.validate("CplTrace", runs), CL)
