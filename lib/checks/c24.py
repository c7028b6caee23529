"""Stratix 10 and P-Tile streams: TLP sequences around every segment boundary, all ready latencies, stalls on both sides, and beats as other designs may build them."""
import itertools
from checks.c20 import pattern

CFG = [("s", 256, 1), ("s", 256, 2), ("s", 512, 1), ("s", 512, 2), ("s", 512, 4), ("t", 128, 1), ("t", 256, 1), ("t", 256, 2), ("t", 512, 1), ("t", 512, 2), ("t", 512, 4)]


def length(g, lanes, n, big=.02):
    """payload dwords around the boundaries, with and without the header"""
    if g.random() < big:
        return g.choice([1024, 1023, 128, 255, 256, 513])
    x = g.random()
    if x < .25:
        return 0
    if x < .75:
        return max(0, g.choice([1, 2, 3, n]) * lanes - g.choice([0, 3, 4]) + g.choice([-1, 0, 1]))
    return g.randrange(1, 3 * lanes * n + 2)


def run(ctx):
    g = ctx.rng
    for c in ctx.pick(["L=0 Segs=1 Lanes=2 MaxLen=5 Frames=3 Limit=1", "L=2 Segs=2 Lanes=2 MaxLen=3 Frames=3 Limit=1", "L=3 Segs=1 Lanes=2 MaxLen=3 Frames=3 Limit=0"],
                      ["L=0 Segs=2 Lanes=2 MaxLen=5 Frames=4 Limit=1", "L=2 Segs=2 Lanes=2 MaxLen=5 Frames=4 Limit=1", "L=3 Segs=1 Lanes=2 MaxLen=3 Frames=5 Limit=0", "L=4 Segs=2 Lanes=2 MaxLen=3 Frames=4 Limit=0", "L=1 Segs=4 Lanes=2 MaxLen=5 Frames=4 Limit=2"]):
        ctx.model("IntelStreamMC", f"SPECIFICATION Spec\nCONSTANTS {c}\nINVARIANTS Good InOrder Bound Window\nCHECK_DEADLOCK FALSE\n", name="IntelStreamMC " + c)
        ctx.model("IntelStreamMC", f"SPECIFICATION Flow\nCONSTANTS {c}\nPROPERTY AllOut\nCHECK_DEADLOCK FALSE\n", name="IntelStreamMC liveness " + c)
    sc = []
    for ci, (fam, w, n) in enumerate(CFG):
        lanes = w // n // 32
        for d in ("tx", "rx"):
            base = dict(driver="intelstream", fam=fam, w=w, n=n, dir=d)
            L0 = (3 if d == "tx" else 27 if fam == "t" else 18 if w == 512 else 17)
            h = [3, 4] if fam == "s" else [0]
            c = sorted({max(0, k * lanes - x + y) for k in (1, 2) for x in h for y in (-1, 0, 1)} | {0, 1})
            seq = [x for t in itertools.product(c, repeat=3) for x in t]
            k = ctx.pick(60, 600)
            if len(seq) > k:
                o = g.randrange(len(seq) - k)
                seq = seq[o:o + k]
            for raw in (0, 1):
                sc.append(dict(base, sid=f"e{ci}.{d}.{raw}", raw=raw, L=L0, opt=1, frames=[dict(n=x, plain=int(g.random() < .3), side=1) for x in seq], sp=pattern(g), kp=[], seed=g.getrandbits(30), cost=len(seq) * (2 + 20 / lanes), tight=g.choice([0, .3])))
            for k in range(ctx.pick(8, 80)):
                odd = int(g.random() < .1)
                L = g.choice([L0, L0, L0, 0, 1, 2, 3, 4, 7, g.randrange(30)])
                fr = [dict(n=length(g, lanes, n), gap=g.choice([0, 0, 0, 0, 1, 2, 5]), plain=int(g.random() < .3), side=int(g.random() < .7), par=int(g.random() < .15), nowait=int(g.random() < .5), reuse=int(g.random() < .2)) for _ in range(g.randrange(3, 24))]
                sc.append(dict(base, sid=f"r{ci}.{d}.{k}", raw=int(g.random() < .45), L=L, opt=int(g.random() < .8), odd=odd, frames=fr, sp=pattern(g), kp=pattern(g), seed=g.getrandbits(30), cost=len(fr) * (2 + 20 / lanes) + 20,
                               tight=g.choice([0, .2, .6]), limit=g.choice([None, None, 1, 2, 5]), slow=g.choice([0, 0, 1, 2]), rst=g.choice([0, 0, 0, 1, 3, 8])))
    runs = ctx.sim(sc, top="intel")
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "send":
                ctx.count("tlps_sent")
            elif e["ev"] == "clk":
                ctx.count("clocks")
                if e["v"]:
                    ctx.count("beats")
    ctx.report(ctx.validate("IntelStreamTrace", runs))
