"""UltraScale stream interfaces: TLP sequences around every beat and segment boundary, under stall patterns, and beats as other designs may build them."""
import itertools

CFG = [("rq", 64, 60, 1), ("rq", 64, 62, 1), ("rq", 128, 62, 1), ("rq", 256, 62, 1), ("rq", 256, 60, 1), ("rq", 512, 137, 1), ("rq", 512, 137, 2),
       ("rc", 64, 75, 1), ("rc", 128, 75, 1), ("rc", 256, 75, 1), ("rc", 256, 75, 2), ("rc", 512, 161, 1), ("rc", 512, 161, 2), ("rc", 512, 161, 4),
       ("cq", 64, 85, 1), ("cq", 64, 88, 1), ("cq", 128, 88, 1), ("cq", 256, 85, 1), ("cq", 256, 88, 1), ("cq", 512, 183, 1), ("cq", 512, 183, 2),
       ("cc", 64, 33, 1), ("cc", 128, 33, 1), ("cc", 256, 33, 1), ("cc", 512, 81, 1), ("cc", 512, 81, 2)]


def pattern(g):
    x = g.random()
    if x < .3:
        return []
    if x < .5:
        return g.choice([[1, 0], [0, 1], [0, 0, 1], [1, 1, 0], [1, 1, 1, 1, 0], [0, 1, 1, 1]])
    p = [int(g.random() < g.choice([.2, .5, .8])) for _ in range(g.randrange(3, 40))]
    return p + [0]


def lens(g, i, w, segs):
    m = 4 if i in ("rq", "cq") else 3
    n = w // 32
    s = n // segs
    c = sorted({x for k in (1, 2, 3) for x in (k * s - 1, k * s, k * s + 1, k * n - 1, k * n, k * n + 1) if x >= m} | {m, m + 1})
    return g.choice(c) if g.random() < .7 else m if g.random() < .4 else g.randrange(m, m + 3 * n)


def run(ctx):
    g = ctx.rng
    for n, s, m, k, f in ctx.pick([(8, 2, 9, 3, 3), (16, 4, 18, 3, 2)], [(8, 2, 12, 3, 3), (16, 4, 34, 3, 2), (16, 2, 20, 4, 3), (16, 1, 34, 4, 2), (2, 1, 9, 3, 3), (4, 1, 9, 3, 3)]):
        ctx.model("UsStreamMC", f"SPECIFICATION Spec\nCONSTANTS N={n} SegN={s} MaxLen={m} MinLen={k} Frames={f}\nINVARIANTS Marked InOrder\nPROPERTY Delivered\nCHECK_DEADLOCK FALSE\n", name=f"UsStreamMC lanes={n} segments={s} lengths {k}..{m} x{f}")
    sc = []
    for ci, (i, w, uw, segs) in enumerate(CFG):
        base = dict(driver="usstream", i=i, w=w, uw=uw, segs=segs)
        m = 4 if i in ("rq", "cq") else 3
        # every sequence of three lengths around the boundaries
        n = w // 32
        s = n // segs
        c = sorted({x for x in (m, s - 1, s, s + 1, n, n + 1, n + s) if x >= m})
        seq = [d for t in itertools.product(c, repeat=3) for d in t]
        if len(seq) > ctx.pick(150, 1100):
            k = ctx.pick(150, 1100)
            o = g.randrange(len(seq) - k)
            seq = seq[o:o + k]
        for raw in (0, 1):
            fr = [dict(n=x) for x in seq]
            sc.append(dict(base, sid=f"e{ci}.{raw}", raw=raw, frames=fr, sp=pattern(g), kp=pattern(g), seed=g.getrandbits(30), cost=len(seq) * (2 + 20 / n), tight=g.choice([0, .3])))
        for k in range(ctx.pick(6, 70)):
            fr = [dict(n=lens(g, i, w, segs), gap=g.choice([0, 0, 0, 0, 1, 2, 5]), disc=int(g.random() < .06), nowait=int(g.random() < .5), reuse=int(g.random() < .2)) for _ in range(g.randrange(3, 24))]
            if g.random() < .15:
                fr.insert(g.randrange(len(fr)), dict(n=g.choice([68, 132, 260])))
            sc.append(dict(base, sid=f"r{ci}.{k}", raw=int(g.random() < .45), frames=fr, sp=pattern(g), kp=pattern(g), seed=g.getrandbits(30), cost=len(fr) * (2 + 20 / n), tight=g.choice([0, .3, .8]),
                           limit=g.choice([None, None, 0, 1, 2]), slow=g.choice([0, 0, 1, 2])))
    runs = ctx.sim(sc, top="usstream")
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "send":
                ctx.count("tlps_sent")
            elif e["ev"] == "clk" and e["v"]:
                ctx.count("beats_accepted" if e["r"] else "beats_stalled")
    ctx.report(ctx.validate("UsStreamTrace", runs))
