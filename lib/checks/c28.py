"""Link timing: abstract model exhaustive; recorded arrival times of real ports of all speeds, widths, delays and loads."""
W = [1, 2, 4, 8, 16, 32]


def scenarios(g, n):
    out = []
    combos = [(s, w) for s in (1, 2, 3, 4, 5) for w in W]
    for k in range(n):
        s, w = combos[k % len(combos)]
        if k < 2 * len(combos) or g.random() < .5:
            sp, wd = [s, g.choice([x for x in (s, 5, 4, None) if x is None or x >= s])], [w, g.choice([x for x in (w, 16, 32, None) if x is None or x >= w])]
        else:
            sp, wd = [g.choice([1, 2, 3, 4, 5]) for _ in "ab"], [g.choice(W) for _ in "ab"]
        if g.random() < .5:
            sp.reverse()
        if g.random() < .5:
            wd.reverse()
        if k % 29 == 28:
            sp, wd = [None, None], g.choice([[None, None], [4, 8]])
        lo, lw = min([x for x in sp if x] or [5]), min([x for x in wd if x] or [16])
        byte = [0, 4000, 2000, 1016, 508, 254][lo] / lw / 1000      # ns
        free = g.random() < .7
        fc = [[[0, 0]] * 3 if free else [[g.choice([1, 2, 8]), g.choice([8, 64, 256])] for _ in "abc"] for _ in "ab"]
        maxb = g.choice([4, 64, 128, 256, 1024, 4096]) if free else 128
        tot = int(min(60, max(6, 600e3 / (byte * (maxb / 3 + 24)))))
        gap = g.choice([[0], [0], [0, 1, 5], [0, int(byte * 40) + 1, int(byte * 400) + 1], [int(byte * maxb) + 1], [3000]])
        if gap == [3000]:
            tot = min(tot, 15)
        send = [[dict(c=c, n=max(1, tot // 3), gap=gap, maxb=maxb) for c in ("P", "NP", "CPL") if g.random() < .7] for _ in "ab"]
        out.append(dict(driver="linktime", sid=k, seed=g.randrange(1 << 30), speed=sp, width=wd, delay=[g.choice([0, 1000, 5000, 5000, 123000]), g.choice([0, 700, 5000, 40000])],
                        fc=fc, free=free, first=g.randrange(2), rel=g.choice([[0], [0, 50], [400]]), send=send, start=int(200 * byte) + 400, tail=3000, cost=2))
    return out


def run(ctx):
    g = ctx.rng
    for d, n, h in ctx.pick([(0, 4, 8), (2, 3, 9)], [(0, 5, 10), (3, 5, 12), (1, 6, 12)]):
        ctx.model("TimingMC", f'SPECIFICATION Spec\nCONSTANTS S=3 D={d} N={n} H={h} Wrong="no"\nINVARIANTS Judge Capacity Order\nCHECK_DEADLOCK FALSE\n', name=f"TimingMC D={d} N={n} H={h}")
    runs = ctx.sim(scenarios(g, ctx.pick(120, 1500)))
    for s, ev in runs:
        for e in ev:
            if e["ev"] == "ar":
                ctx.count("tlps" if e["k"] == "TLP" else "dllps")
    ctx.report(ctx.validate("TimingTrace", runs))
