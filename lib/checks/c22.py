"""UltraScale completer side: requests on the CQ stream under credits for non-posted requests, completions on the CC stream."""
from checks.usscen import *


def cbars(g, s):
    """BARs of all functions, apart from each other"""
    used = []

    def place(size, lo, hi):
        for _ in range(200):
            a = g.randrange(lo, hi) // size * size
            if a >= lo and a + size <= hi and all(a + size <= u or a >= u + n for u, n in used):
                used.append((a, size))
                return a
        return None
    for fn in range(s["pf"]):
        bars, i = [], 0
        while i < 6 and g.random() < .75:
            k = g.choice(["m32", "m32", "m64", "m64", "io"])
            if k == "m64" and i == 5:
                k = "m32"
            size = 1 << (g.randrange(2, 9) if k == "io" else g.choice([7, 8, 12, 12, 16, 20, 24, 30]) if k == "m32" else g.choice([7, 12, 16, 24, 32, 34, 40]))
            ext = k == "m64"
            a = place(size, 1 << 12, 1 << 24) if k == "io" else place(size, 1 << 24, 1 << 32) if k == "m32" or (g.random() < .2 and size <= 1 << 30) else place(size, 1 << 32, 1 << 62)
            if a is None:
                break
            bars.append(dict(i=i, size=size, addr=a, ext=ext, io=k == "io", pf=g.randrange(2) if k != "io" else 0))
            i += 2 if ext else g.choice([1, 1, 1, 2])
        s["bars"][fn] = bars


def target(g, s, io):
    c = [(fn, b) for fn in range(s["pf"]) for b in s["bars"][fn] if b["io"] == io]
    return g.choice(c) if c else None


def creq(g, s, np=None, wild=.06):
    """one request of the link partner"""
    p = g.random() < .45 if np is None else not np
    d = dict(rid=g.getrandbits(16), tc=g.randrange(8), attr=g.randrange(8), at=g.choice([0, 0, 0, 1, 2]), tag=g.randrange(256))
    x = g.random()
    if not p and x < s.get("cfg", 0):
        # configuration requests; writes only where they change nothing
        fn = g.choice([0, 0, 1, 2, 5, 7])
        d.update(t=g.choice(["CFG_READ_0"] * 3 + ["CFG_WRITE_0"] + ["CFG_READ_1", "CFG_WRITE_1"]), n=1, a=0, fbe=15, lbe=0, cid=s.get("cur", s["bus"]) << 8 | fn, at=0)
        return ["req", d]
    io = not p and x < .3 or False
    tg = target(g, s, io) if g.random() > wild else None
    if io:
        a = tg[1]["addr"] + 4 * g.randrange(tg[1]["size"] // 4) if tg else g.randrange(1 << 30) * 4
        d.update(t=g.choice(["IO_READ", "IO_WRITE"]), n=1, a=a, fbe=g.choice([15, 15, 1, 2, 12, 6]), lbe=0, at=0)
        return ["req", d]
    n = g.choice([1, 1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32]) if p or g.random() < .8 else g.choice([64, 128, 256, 1024])
    if tg:
        b = tg[1]
        n = min(n, b["size"] // 4)
        room = b["size"] // 4 - n
        off = 4 * g.choice([0, room, min(room, 1), g.randrange(room + 1), g.randrange(room + 1)])
        a = b["addr"] + off
    else:
        a = g.choice([g.randrange(1 << 22) * 4, g.randrange(1 << 30) * 4, g.randrange(1 << 62) * 4])
        # next to, or an alias of, a BAR
        t2 = target(g, s, False)
        if t2 and g.random() < .7:
            b = t2[1]
            a = g.choice([b["addr"] + b["size"], b["addr"] - 4 * n, b["addr"] | g.randrange(1, 1 << 30) << 32, b["addr"] ^ b["size"]])
    a &= (1 << 64) - 4
    k = (4096 - a % 4096) // 4
    n = min(n, k)
    d.update(n=n, a=a, t=("MEM_WRITE" if p else "MEM_READ") + ("_64" if a > 0xffffffff else ""))
    d["fbe"], d["lbe"] = be(g, n)
    if n == 1:
        d["fbe"] = g.choice([15, 15, 1, 2, 4, 8, 3, 12, 6, 7, 0, 9])
    if p and g.random() < .03:
        d["ep"] = 1
    return ["req", d]


def cbase(g, c, pf=None):
    s = base(g, c, pf=pf)
    cbars(g, s)
    if s["pf"] > 1 and g.random() < .3:
        s["cmd"][g.randrange(s["pf"])] = g.choice([4, 5, 6])
    s["cfg"] = g.choice([0, .2, .4])
    s["ccfail"] = g.choice([0, 0, .2])
    s["disc"] = g.choice([0, 0, .15]) if not c[2] else 0
    return s


def mix(ctx, c, k):
    g = ctx.rng
    s = cbase(g, c)
    s["sid"] = f"m{'-'.join(map(str, c))}.{k}"
    if g.random() < .3:
        s["fc"] = [g.choice([1, 2, 8]), g.choice([16, 64]), g.choice([1, 2, 8]), g.choice([2, 8]), 0, 0]
        s["fcdelay"] = 1
    if g.random() < .2:
        s["off"] = g.choice([["pcie_cq_np_req"], ["pcie_cq_np_req_count"], ["user_reset"], ["cfg_config_space_enable"]])
    s["np0"] = g.choice([1, 1, 1, 0])
    off = s.get("off", [])
    ops = []
    held = not s["np0"]
    for _ in range(g.randrange(10, ctx.pick(40, 80))):
        x = g.random()
        if x < .62:
            ops += [creq(g, s) for _ in range(g.choice([1, 1, 2, 4, 8]))]
        elif x < .7:
            ops.append(["wait", g.choice([1, 5, 30, 100])])
        elif x < .8:
            ops.append(["pause", g.choice(["cq", "cq", "cc"]), pattern(g)])
        elif x < .84:
            ops.append(["settle"])
        elif x < .88:
            ops.append(["cqhold", g.randrange(2)])
        elif x < .91 and "cfg_config_space_enable" not in off:
            ops += [["settle"], ["cse", 0]] + [["req", dict(rid=g.getrandbits(16), tc=g.randrange(8), attr=g.randrange(8), at=0, tag=g.randrange(256), t="CFG_READ_0", n=1, a=0, fbe=15, lbe=0, cid=g.getrandbits(8) << 8)] for _ in range(2)] + [["settle"], ["cse", 1]]
        elif x < .93:
            # renumbered
            b = g.randrange(1, 256)
            ops += [["pause", "cc", 0], ["cqhold", 0], ["settle"]] + [["req", dict(rid=g.getrandbits(16), tc=0, attr=0, at=0, tag=g.randrange(256), t="CFG_WRITE_0", n=1, a=0, fbe=15, lbe=0, cid=b << 8)]] + [["settle"]]
            s["cur"] = b
        elif "pcie_cq_np_req" not in off:
            if held:
                ops.append(["npreq", [int(g.random() < .5) for _ in range(g.randrange(1, 12))]])
            else:
                ops.append(["settle"])
                ops.append(["nphold", 0])
                held = True
            if g.random() < .2:
                ops.append(["nphold", 1])
                held = False
    if held and "pcie_cq_np_req" not in off:
        ops.append(["nphold", 1])
    s["ops"] = finish(ops)
    s["cost"] = len(ops) + 20
    return s


def credit(ctx, c, k):
    """few credits, given one at a time, while posted requests flow and the stream stalls"""
    g = ctx.rng
    s = cbase(g, c)
    s.update(np0=0, cfg=0)
    s["sid"] = f"n{'-'.join(map(str, c))}.{k}"
    ops = []
    for _ in range(ctx.pick(10, 30)):
        x = g.random()
        ops += [creq(g, s, np=g.random() < .6, wild=0) for _ in range(g.randrange(1, 12))]
        if x < .3:
            ops.append(["pause", "cq", g.choice([0, 0, 1, [1, 0], [1] * 20 + [0]])])
        ops.append(["npreq", [int(g.random() < g.choice([.1, .5, 1])) for _ in range(g.choice([1, 2, 10, 50]))]])
        if g.random() < .4:
            ops += [["pause", "cq", 0], ["settle"]]
    s["ops"] = finish(ops) + [["npreq", [1] * 40], ["settle"], ["nphold", 1], ["settle"], ["nphold", 0]] + [creq(g, s, np=True, wild=0) for _ in range(40)] + [["settle"], ["npreq", [1, 0, 1]], ["settle"]]
    s["cost"] = 80
    return s


def run(ctx):
    g = ctx.rng
    for n, c, gr in ctx.pick([(5, 3, 4)], [(5, 3, 4), (7, 2, 5), (8, 3, 3)]):
        ctx.model("UsCqMC", f"SPECIFICATION Spec\nCONSTANTS N={n} C={c} G={gr}\nINVARIANTS InOrder NoPass Credit\nPROPERTY PostedFlow\nCHECK_DEADLOCK FALSE\n", name=f"UsCqMC requests={n} limit={c} grants={gr}")
    for n in ctx.pick([5], [5, 7]):
        ctx.model("UsCqMC", f"SPECIFICATION Granted\nCONSTANTS N={n} C={n} G={n}\nINVARIANTS InOrder NoPass Credit\nPROPERTIES PostedFlow AllOut\nCHECK_DEADLOCK FALSE\n", name=f"UsCqMC requests={n}, all granted")
    sc = []
    for c in CONF:
        sc += [mix(ctx, c, k) for k in range(ctx.pick(5, 50))]
        sc += [credit(ctx, c, k) for k in range(ctx.pick(2, 12))]
    runs = ctx.sim(sc, top="usdev")
    for s, ev in runs:
        for e in ev:
            if e["ev"] in ("req", "cq", "cc", "np") or e["ev"] == "up":
                ctx.count(e["ev"])
    ctx.report(ctx.validate("UsDevTrace", runs))
