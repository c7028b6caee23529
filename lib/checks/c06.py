"""Reads return what was last written: public accesses against byte memories."""
from .fabscen import *


def race(g, t, n):
    """Branches writing overlapping ranges; afterwards every byte must hold one of the values written there."""
    regs = [r for r in regions(t) if not r[2]]
    fs = eps(t)
    same = sameport(t)
    r, own, io, size = g.choice(regs)
    brs = []
    for _ in range(n):
        f = 0 if g.random() < .5 or not fs else g.choice(fs)
        if own == f or own and f and own in same[f]:
            f = 0 if own else g.choice(fs)
        lo = g.randrange(0, max(1, size // 2))
        b = []
        for _ in range(3):
            m = min(size - lo, g.randrange(1, 400))
            o = g.randrange(lo, min(size - m, lo + 200) + 1)
            b.append(dict(op="acc", f=f, w=int(g.random() < .7), r=r, o=o, n=m))
        brs.append(b)
    return [dict(op="race"), dict(op="par", b=brs), dict(op="dump", t=4000)]


def holes(g, t, n):
    out = []
    for _ in range(n):
        f = 0 if g.random() < .5 or not eps(t) else g.choice(eps(t))
        io = int(g.random() < .3)
        out.append(dict(op="acc", f=f, w=int(g.random() < .35), io=io, hole=g.randrange(1 << 20), n=g.choice([1, 2, 4, 7, 64, 300, 1500]) if not io else g.choice([1, 3, 4, 9])))
    g.shuffle(out)
    return out


def typing(g, st):
    """Half of the accesses use a typed accessor."""
    for o in st:
        if o["op"] == "par":
            for b in o["b"]:
                typing(g, b)
        elif o["op"] == "acc" and g.random() < .5:
            ws = [w for w in (1, 2, 3, 4, 5, 7, 8, 8, 16) if o["n"] > 0 and o["n"] % w == 0]
            if ws:
                o["h"] = [g.choice(ws), g.randrange(2), g.randrange(1, 4)]
    return st


def typed(g, t, n):
    """Short sequences of typed accesses, one word size each."""
    regs = regions(t)
    fs = eps(t)
    same = sameport(t)
    st = []
    for _ in range(n):
        f = 0 if g.random() < .5 or not fs else g.choice(fs)
        ok = [x for x in regs if x[1] != f and (f == 0 or x[1] == 0 or x[1] not in same[f])]
        if not ok:
            continue
        r, own, io, size = g.choice(ok)
        ws = g.choice([1, 2, 4, 8])
        m = ws * g.choice([1, 1, 2, 3])
        if m > size:
            continue
        o = g.randrange(0, size - m + 1)
        for w in (1, 0):
            st.append(dict(op="acc", f=f, w=w, r=r, o=o, n=m, h=[ws, g.randrange(2), g.randrange(1, 4)]))
    return st + [dict(op="dump", t=4000)]


def run(ctx):
    g = ctx.rng
    sc = []
    for k in range(ctx.pick(80, 600)):
        t = topo(g, n=g.randrange(1, ctx.pick(6, 9)), leaf=lambda: ep(g, nf=g.choice([1, 1, 2, 3]), mpss=g.randrange(0, 6), maxlog=g.choice([9, 13, 16])))
        t["mps"] = g.randrange(6)
        t["rcb"], t["split"] = g.randrange(2), g.randrange(2)
        st = [dict(op="enum")] + settings(g, t)
        for _ in range(ctx.pick(2, 4)):
            j = g.randrange(4)
            if j == 0 and eps(t):
                st += race(g, t, g.randrange(2, 5))
            elif j == 1:
                st += holes(g, t, 4) + [dict(op="dump", t=4000)]
            else:
                st += phase(g, t, g.randrange(1, 5), ctx.pick(7, 12), big=g.choice([80, 1000, 5000]))
        typing(g, st)
        st += typed(g, t, ctx.pick(4, 8))
        for r, own, io, size in regions(t):      # the host looks into its own memory through its address spaces
            if own == 0 and g.random() < .5:
                m = g.randrange(1, min(size, 300))
                o = g.randrange(0, size - m + 1)
                st += [dict(op="acc", f=0, via=3, w=w, r=r, o=o, n=m) for w in (g.randrange(2), 0)]
        st.append(dict(op="dump", t=4000))
        sc.append(scen(t, st, sid=k, events=[]))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "ret":
                ctx.count("accesses")
            elif e["ev"] == "diff":
                ctx.count("memory_comparisons")
    ctx.report(ctx.validate("MemTrace", runs))
