"""Capability lists: every short sequence of registrations and removals (generated by TLC), and long random ones."""
import json, re


def seqs(ctx, K, F, D):
    r = ctx.tlc("CapGen", f"SPECIFICATION Spec\nCONSTANTS K={K} F={F} D={D}\nCHECK_DEADLOCK FALSE\n", workers=1, count=False)
    out = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"GEN (.*)"$', r.out, re.M)]
    assert out, r.out[-2000:]
    return out


def rnd(g, n, host=False):
    caps, fixed = [], {}
    nstd, next_ = g.randrange(0, 6), g.randrange(0, 6)
    for k in range(nstd + next_):
        ext = k >= nstd
        caps.append(dict(ext=int(ext), id=g.randrange(1, 0x30 if ext else 0x16) if g.random() < .8 else 9 if not ext else 11, ver=g.randrange(1, 16) if ext else 0,
                         len=g.randrange(1, 5) if not ext else g.choice([1, 2, 3, g.randrange(1, 40), g.randrange(1, 64)])))
    ops = []
    if not caps:
        return dict(caps=[], ops=[["walk", 1]])
    for _ in range(n):
        k = g.randrange(len(caps)) + 1
        c = caps[k - 1]
        x = g.random()
        if x < .25:
            ops.append(["del", k])
        elif x < .55:
            ops.append(["reg", k, 0])
        else:
            off = g.randrange(16, 64 - c["len"] + 1) if not c["ext"] else g.choice([64, 64 + g.randrange(80), g.randrange(64, 1024 - c["len"] + 1)])
            ops.append(["reg", k, off])
        ops.append(["walk", int(not host and g.random() < .1)])
        if host:
            ops.append(["host"])
        for _ in range(g.randrange(0, 4)):
            ops.append(["wr", g.choice([g.randrange(16, 64), g.randrange(64, 150), g.randrange(16, 1024)]), 15 if host else g.choice([15, g.randrange(16)]), g.getrandbits(32)])
    return dict(caps=caps, ops=ops, host=int(host), br=int(g.random() < .3))


def run(ctx):
    g = ctx.rng
    for K, L, O in ctx.pick([(3, 3, 4)], [(3, 3, 6), (4, 2, 4), (3, 4, 8)]):
        ctx.model("CapMC", f"SPECIFICATION Spec\nCONSTANTS K={K} L={L} O={O}\nINVARIANTS Disjoint Compact Allowed Listed\nCHECK_DEADLOCK FALSE\n", name=f"CapMC caps={K} len={L} offsets={O}")
    short = []
    variants = [((1, 2, 1), (17, 18), 0), ((2, 3, 2), (16, 19), 0), ((1, 2, 1), (64, 66), 1), ((3, 2, 1), (65, 68), 1)]
    for q in seqs(ctx, 3, 2, ctx.pick(3, 4)):
        for lens, offs, ext in g.sample(variants, ctx.pick(2, 2)):
            caps = [dict(ext=ext, id=3 + k, ver=(k + 1) * ext, len=n) for k, n in enumerate(lens)]
            ops = []
            for k, o in q:
                ops += [["del", k] if o == 0 else ["reg", k, 0 if o == 1 else offs[o - 2]], ["walk", 0]]
            short.append(dict(caps=caps, ops=ops))
    g.shuffle(short)
    sc = [dict(driver="caplist", sid=f"x{k}", seqs=short[k::ctx.pick(32, 200)]) for k in range(ctx.pick(32, 200))]
    for k in range(ctx.pick(40, 400)):
        sc.append(dict(driver="caplist", sid=f"r{k}", seqs=[rnd(g, 12) for _ in range(4)]))
    for k in range(ctx.pick(24, 160)):
        sc.append(dict(driver="caplist", sid=f"h{k}", seqs=[rnd(g, 6, True)]))
    # the functions of the device models, with all their capabilities and after removing and re-registering some of them
    ms = []
    for m in ("core", "us", "usp", "s10", "ptile"):
        for k in range(ctx.pick(4, 20)):
            ops = [["walk", 1]]
            for _ in range(k):
                c = g.randrange(1, 3 if m == "core" else 7)
                ops += [["del", c], ["walk", 1]] + ([["reg", c, 0], ["walk", 1]] if g.random() < .6 else [])
            ms.append(dict(model=m, ops=ops))
    sc.append(dict(driver="caplist", sid="models", seqs=ms))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] in ("reg", "del", "walk", "host", "wr"):
                ctx.count({"reg": "registrations", "del": "removals", "walk": "list_walks", "host": "host_discoveries", "wr": "writes"}[e["ev"]])
    ctx.report(ctx.validate("CapTrace", runs))
