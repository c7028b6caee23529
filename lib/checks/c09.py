"""Byte enables at every completer: arbitrary legal patterns on memory and I/O requests, configuration writes."""
from .fabscen import *

CL = {"cpl_data", "cpl_unexpected", "cpl_missing", "cpl_refused", "write_unselected_byte", "write_missing_or_wrong"}


def run(ctx):
    g = ctx.rng
    sc = []
    # every byte enable pattern of one and two dwords at every kind of completer
    pats = [(1, fb, 0) for fb in range(16)] + [(2, fb, lb) for fb in range(1, 16) for lb in range(1, 16)]
    for k in range(ctx.pick(4, 12)):
        t = dict(ports=[ep(g, nb=0), dict(t="sw", ports=[ep(g, nb=0)])], host=[dict(size=4096), dict(size=4096, addr=(3 << 32) - 4096), dict(size=256, io=1)])
        for _, kind, s in walk(t["ports"]):
            if kind == "ep":
                s["bars"] = [dict(size=4096, ext=k & 1), dict(size=64, io=1)]
        regs, fs, br = regions(t), eps(t), []
        for f in [0] + fs:
            b = []
            for r, own, io, size in regs:
                if own == f:
                    continue
                for n, fb, lb in pats:
                    if io and n > 1 or g.random() < (.6 if n > 1 else .2):
                        continue
                    o = g.randrange(0, size // 8) * 8
                    b.append(dict(op="raw", f=f, ty=("IOWr" if io else "MWr"), r=r, o=o, n=n, fb=fb, lb=lb))
                    if g.random() < .3:
                        b.append(dict(b[-1], ty="IORd" if io else "MRd"))
            g.shuffle(b)
            br.append(b)
        sc.append(scen(t, [dict(op="enum"), dict(op="par", b=br), dict(op="dump", t=4000)], sid=f"p{k}", data=1, events=["snd", "rcv"]))
    for k in range(ctx.pick(24, 250)):
        t = topo(g, n=g.randrange(1, 5), leaf=lambda: ep(g, nf=g.choice([1, 2]), maxlog=13))
        st = [dict(op="enum")] + rawphase(g, t, 3, ctx.pick(16, 24), write=.6) + rawphase(g, t, 2, 10, write=.7)
        sc.append(scen(t, st, sid=k, data=1, events=["snd", "rcv"]))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "raw":
                ctx.count("raw_requests")
    ctx.report(ctx.validate("CplTrace", runs), CL)
