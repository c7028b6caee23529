"""UltraScale requester side: requests, tags and completions of the device models, with the RQ and RC streams."""
from checks.usscen import *


def mix(ctx, c, k):
    g = ctx.rng
    s = base(g, c)
    s["sid"] = f"m{'-'.join(map(str, c))}.{k}"
    if s["pf"] > 1 and g.random() < .4:
        s["cmd"][g.randrange(s["pf"])] = 3
    if g.random() < .4:
        s["fc"] = [g.choice([1, 2, 8]), g.choice([16, 64]), g.choice([1, 2, 8]), g.choice([2, 8]), 0, 0]
        s["fcdelay"] = 1
    s.update(fail=g.choice([0, 0, .1]), nodata=g.choice([0, 0, .1]), poison=g.choice([0, 0, .2]), anysplit=g.randrange(2), disc=0 if c[2] else g.choice([0, 0, .15]))
    s["bogus"] = g.choice([0, 0, .3]) if s["never"] else 0
    if g.random() < .3:
        s["inorder"] = 1
    if g.random() < .2:
        x = "pcie_rq_seq_num" + ("" if c[0] == "u" else "0")
        s["off"] = g.choice([[x, x.replace("num", "num_vld")], ["pcie_rq_tag_av"], ["user_reset", "user_lnk_up"], ["cfg_fc_sel"], ["pcie_cq_np_req", "pcie_cq_np_req_count"]])
    if g.random() < .2:
        s["guess"] = 1
    st = dict(p=0, n=0)
    ops = []
    for _ in range(g.randrange(10, ctx.pick(40, 80))):
        x = g.random()
        if x < .72:
            ops += [rq(g, s, st) for _ in range(g.choice([1, 1, 2, 4]))]
        elif x < .8:
            ops.append(["wait", g.choice([1, 5, 30, 100])])
        elif x < .88:
            ops.append(["pause", g.choice(["rq", "rc"]), pattern(g)])
        elif x < .92:
            ops.append(["settle"])
        elif not s["ct"] or len(s["tags"]) > 16:
            # requests outstanding for a while
            m = g.randrange(1, 10)
            ops += [["settle"], ["hold", 1]] + [rq(g, s, st, big=0) for _ in range(m)] + [["wait", 60], ["hold", 0]]
    s["ops"] = finish(ops)
    s["cost"] = len(ops) + 20
    return s


def exhaust(ctx, c, k):
    """more requests than tags (or than completion space): what can go on goes on, in order"""
    g = ctx.rng
    s = base(g, c, ct=0, pf=1)
    s["sid"] = f"x{'-'.join(map(str, c))}.{k}"
    s["delay"] = g.choice([[0, 0, 1, 3], [0], [3, 7], [6]])
    s["inject"] = g.randrange(2)
    lim = 32 if not s["ext"] else 64 if c[0] == "u" else 256
    st = dict(p=0, n=0)
    ops = []
    for rnd in range(g.choice([1, 2])):
        over = g.choice([0, 1, 2, 8, 16, 17, 24])
        ops.append(["hold", 1])
        n = lim + over
        while n > 0:
            if g.random() < .08:
                ops.append(rq(g, s, st, np=False))
            else:
                ops.append(rq(g, s, st, np=True, big=0))
                n -= 1
        ops += [rq(g, s, st, np=False) for _ in range(g.randrange(1, 6))]
        ops += [["settle"], ["hold", 0]]
        if g.random() < .5:
            ops += [["wait", g.choice([1, 3, 10, 40])], ["hold", 1], ["settle"]] + [rq(g, s, st, np=g.random() < .6, big=0) for _ in range(g.randrange(1, 12))] + [["settle"], ["hold", 0]]
        ops += [rq(g, s, st, np=g.random() < .7, big=0) for _ in range(g.randrange(0, 12))] + [["settle"]]
    s["ops"] = finish(ops)
    s["cost"] = len(ops) + 40
    return s


def race(ctx, c, k):
    """a tag returns around the time a request arrives while one is waiting"""
    g = ctx.rng
    s = base(g, c, ct=0, pf=1, ext=0)
    s["sid"] = f"r{'-'.join(map(str, c))}.{k}"
    s["inject"] = 1 + k
    st = dict(p=0, n=0)
    one = lambda: ["rq", dict(rq(g, s, st, np=True)[1], t="IO_READ", n=1, a=g.randrange(1 << 30) * 4, fbe=15, lbe=0, at=0)]
    ops = [["hold", 1]] + [one() for _ in range(33)] + [["settle"]]
    for k in range(10):
        ops += [["late", k], one(), ["settle", 40]]
    s["ops"] = finish(ops)
    s["cost"] = 40
    return s


def overflow(ctx, c, k):
    """the RC stream stalls while completions arrive"""
    g = ctx.rng
    s = base(g, c, ct=0, ext=1, pf=1)
    s["sid"] = f"o{'-'.join(map(str, c))}.{k}"
    s.update(delay=[0], inorder=g.randrange(2))
    st = dict(p=0, n=0)
    ops = [["pause", "rc", 1]]
    limh = 64 if c[0] == "u" else 256
    if g.random() < .5:
        # many headers
        s["maxcpl"] = 4
        s["anysplit"] = 1
        tot = limh + g.choice([-3, 0, 3, 14, 40])
        while tot > 0:
            n = g.choice([4, 16, 32])
            d = rq(g, s, st, np=True, big=0)[1]
            a = d["a"] & ~0xfff
            d.update(t="MEM_READ" + ("_64" if a > 0xffffffff else ""), n=n, a=a, fbe=15, lbe=15, at=0)
            ops.append(["rq", d])
            tot -= n // 3
    else:
        tot = (1024 if c[0] == "u" else 2048) + g.choice([-40, 0, 100, 300])
        while tot > 0:
            n = g.choice([256, 512, 1024])
            d = rq(g, s, st, np=True, big=0)[1]
            a = d["a"] & ~0xfff
            d.update(t="MEM_READ" + ("_64" if a > 0xffffffff else ""), n=n, a=a, fbe=15, lbe=15, at=0)
            ops.append(["rq", d])
            tot -= n // 4 + n // 32
    ops += [["settle"], ["pause", "rc", 0], ["settle"]] + [rq(g, s, st, np=True, big=0) for _ in range(6)]
    s["ops"] = finish(ops)
    s["cost"] = 150
    return s


def credits(ctx, c):
    """more non-posted requests with data than there are data credits"""
    g = ctx.rng
    s = base(g, c, pf=1)
    s["sid"] = f"d{'-'.join(map(str, c))}"
    s.update(delay=[0, 1], fail=.9)
    st = dict(p=0, n=0)
    ops = []
    for _ in range((1024 if c[0] == "u" else 2048) * 5 // 8):
        op = rq(g, s, st, np=True, big=0)
        d = op[1]
        if d["t"].startswith("MEM_READ"):
            d.update(t="CAS", n=8, a=(d["a"] & 0xffffff00), fbe=15, lbe=15, at=0)
            d.pop("cid", 0)
        ops.append(op)
    s["ops"] = finish(ops)
    s["cost"] = 500
    return s


def run(ctx):
    g = ctx.rng
    for n, k, l in ctx.pick([(6, 2, 2)], [(6, 2, 2), (8, 2, 3), (8, 3, 2), (9, 1, 1)]):
        ctx.model("UsRqMC", f"SPECIFICATION Spec\nCONSTANTS N={n} K={k} L={l}\nINVARIANTS InOrder NoPass OwnTag Posted\nPROPERTY AllOut\nCHECK_DEADLOCK FALSE\n", name=f"UsRqMC requests={n} tags={k} queue={l}")
    st, m = ctx.pick(("0,4,60,64,120,124,4088,4092", 4), (",".join(str(x) for x in list(range(0, 136, 4)) + [4084, 4088, 4092]), 9))
    ctx.model("UsJudgeMC", f"SPECIFICATION Spec\nCONSTANTS Starts={{{st}}} MaxDw={m}\nINVARIANTS Accepted Completes Rejected\nCHECK_DEADLOCK FALSE\n", name="UsJudgeMC")
    sc = []
    for c in CONF:
        sc += [mix(ctx, c, k) for k in range(ctx.pick(5, 50))]
        sc += [race(ctx, c, k) for k in range(4)]
        sc += [exhaust(ctx, c, k) for k in range(ctx.pick(1, 8))]
    for c in (CONF if not ctx.quick else g.sample(CONF, 4)):
        sc += [overflow(ctx, c, k) for k in range(ctx.pick(1, 4))]
    for f in "up":
        sc.append(credits(ctx, g.choice([c for c in CONF if c[0] == f])))
    runs = ctx.sim(sc, top="usdev")
    for s, ev in runs:
        for e in ev:
            if e["ev"] in ("rq", "up", "cpl", "rc"):
                ctx.count(e["ev"])
            if e["ev"] == "rc":
                ctx.count(f"rc_code_{e['err']}")
    ctx.report(ctx.validate("UsDevTrace", runs))
