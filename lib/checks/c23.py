"""UltraScale management, status, flow control and interrupt interfaces."""
from checks.usscen import *
from checks.c15 import table
from checks.c22 import cbars, creq

EXP = dict(u=0xc0 // 4, p=0x70 // 4)
PM = dict(u=0x20, p=0x10)
MSI = dict(u=0x90 // 4, p=0x48 // 4)
MSIX = dict(u=0xb0 // 4, p=0x60 // 4)
LINK = {("u", 64): (3, 2), ("u", 128): (3, 4), ("u", 256): (3, 8), ("p", 64): (3, 2), ("p", 128): (3, 4), ("p", 256): (3, 8), ("p", 512): (3, 16)}


def scen(ctx, c, k, names):
    g = ctx.rng
    fam, w, st = c
    s = base(g, c, ct=g.randrange(2))
    s.update(driver="uscfg", names=names, link=g.choice([LINK[fam, w], (g.randrange(1, 4 + (fam == 'p')), g.choice([1, 2, 4, 8] + [16] * (fam == 'p')))]), sid=f"{'-'.join(map(str, c))}.{k}", kw={}, mps=g.choice([128, 256, 512, 1024]), tags=list(range(32)), never=[])
    s["bars"] = [[] for _ in range(s["pf"])]
    cbars(g, s)
    s["fnpar"] = []
    for f in range(s["pf"]):
        p = dict(msi=g.choice([0, 1, 2, 4, 8, 16, 32, 1, 32]), msix=int(g.random() < .6), size=g.randrange(2048), tbir=g.randrange(6), pbir=g.randrange(6), toff=g.randrange(1 << 27), poff=g.randrange(1 << 27))
        s["fnpar"].append(p)
        if p["msi"]:
            s["kw"][f"pf{f}_msi_enable"] = True
            s["kw"][f"pf{f}_msi_count"] = p["msi"]
        if p["msix"]:
            s["kw"].update({f"pf{f}_msix_enable": True, f"pf{f}_msix_table_size": p["size"], f"pf{f}_msix_table_bir": p["tbir"], f"pf{f}_msix_pba_bir": p["pbir"],
                            f"pf{f}_msix_table_offset": p["toff"] * 8, f"pf{f}_msix_pba_offset": p["poff"] * 8})
    s["pvm"] = int(g.random() < .4)
    s["off"] = g.choice([[], [], [], [g.choice(["cfg_bus_number", "cfg_rcb_status", "cfg_function_status", "cfg_local_error", "cfg_interrupt_msi_mmenable", "cfg_interrupt_msi_enable", "cfg_max_payload", "pcie_rq_tag_av"])]])
    if fam == "u":
        s["off"] = [x for x in s["off"] if x != "cfg_bus_number"]
    s["fc"] = g.choice([[64, 1024, 64, 64, 0, 0], [0, 0, 0, 0, 0, 0], [g.choice([1, 8, 127]), g.choice([32, 2047]), g.choice([2, 90]), g.choice([2, 64]), 0, 0], [16, 128, 16, 16, 32, 256]])
    bus = s["bus"]
    ops = []
    few = s["fc"][0] == 0 or s["fc"][0] > 8

    def access(via=None, fn=None, reg=None, data=None, wr=None, be=None, tag=200):
        fn = g.randrange(s["pf"]) if fn is None else fn
        x = g.random()
        if reg is None:
            reg = g.choice([1, 1, 4, 5, 15, EXP[fam] + 2, EXP[fam] + 2, EXP[fam] + 4, MSI[fam], MSI[fam], MSI[fam] + 4, MSI[fam] + 1, MSI[fam] + 2, MSI[fam] + 3, MSIX[fam], MSIX[fam]]) if x < .75 else g.randrange(64) if x < .9 else g.randrange(1024)
        wr = g.randrange(4) > 0 if wr is None else wr
        d = g.choice([0xffffffff, 0, g.getrandbits(32), g.getrandbits(32), 1 << g.randrange(32)]) if data is None else data
        if s["pvm"] and reg == MSI[fam] + 4 and data is None:
            d = g.choice([0, 0xffffffff, g.getrandbits(32)])
        if reg == 3:
            d &= ~(1 << 30)
        if reg == EXP[fam] + 4:
            d &= ~0x30              # link disable, retrain
        b = g.choice([15, 15, 15, 3, 12, 1, 2, 4, 8, g.randrange(16)]) if be is None else be
        via = via or g.choice(["acc", "mgmt"])
        return [via, int(wr), fn, reg, b, d] + ([bus, tag] if via == "acc" else [])

    def enable(fn):
        o = [access(fn=fn, reg=1, data=g.choice([4, 6, 7, 0x406, 0x407]), wr=1, be=15)]
        p = s["fnpar"][fn]
        if p["msi"]:
            m = g.randrange(6)
            o += [access(fn=fn, reg=MSI[fam], data=1 << 16 | m << 20, wr=1, be=15), access(fn=fn, reg=MSI[fam] + 1, data=g.getrandbits(32), wr=1, be=15),
                  access(fn=fn, reg=MSI[fam] + 2, data=g.choice([0, 0, g.getrandbits(32)]), wr=1, be=15), access(fn=fn, reg=MSI[fam] + 3, data=g.getrandbits(16), wr=1, be=15)]
        if p["msix"]:
            o.append(access(fn=fn, reg=MSIX[fam], data=1 << 31, wr=1, be=15))
        return o

    def intr():
        fn = g.randrange(s["pf"])
        at = g.randrange(8)
        if g.random() < .6:
            return ["msi", fn, 1 << g.choice([0, 0, 1, 2, 3, 7, 15, 31, g.randrange(32)]) if g.random() < .95 else g.getrandbits(32) | 3, at]
        return ["msi", fn, 0, at, [g.choice([g.getrandbits(32), g.getrandbits(64)]) & ~3, g.getrandbits(32)]]

    ops.append(access("acc", fn=0, reg=15, wr=1))
    if g.random() < .7:
        for f in range(s["pf"]):
            ops += enable(f)
    for _ in range(g.randrange(15, ctx.pick(50, 110))):
        x = g.random()
        if x < .4:
            ops.append(access())
        elif x < .46:
            # two accesses at the same time, to different functions or registers
            a = access("acc", reg=g.choice([4, 15, EXP[fam] + 2]), tag=201)
            b = access("mgmt", reg=g.choice([1, MSIX[fam], EXP[fam] + 4]))
            ops.append(["par", [a, b] + ([access("acc", reg=EXP[fam] + 12, tag=202)] if g.random() < .5 else [])])
        elif x < .52:
            ops.append(["par", [intr(), access("mgmt", reg=g.choice([4, 15])), access("acc", reg=EXP[fam] + 2, be=15, data=g.choice([0x5000, 0x2000, 0x20]), tag=201)]])
        elif x < .62:
            ops += enable(g.randrange(s["pf"]))
            ops.append(intr())
        elif x < .72:
            ops.append(intr())
        elif x < .82:
            ops.append(["st", g.choice([0, 0, 1, 2, 3] + ([15, 9] if fam == "u" else []))])
        elif x < .86:
            ops.append(["fc", [g.randrange(8) for _ in range(4)] + [2, 4, 5, 6]])
        elif x < .89 and s["pvm"]:
            f = g.randrange(s["pf"])
            m = max(s["fnpar"][f]["msi"], 1)
            if g.random() < .4 and s["fnpar"][f]["msi"]:
                # masked while requested, unmasked without bus mastering, then with it
                w = lambda r, d: access(fn=f, reg=r, data=d, wr=1, be=15)
                ops += enable(f) + [w(1, 6), w(MSI[fam] + 4, 0xffffffff), ["msi", f, 1 << g.randrange(m), 0], ["msi", f, 1, 1], w(1, 2), w(MSI[fam] + 4, g.choice([0, 0xfffffffe])), w(1, 6), w(MSI[fam] + 4, 0), ["settle"]]
                continue
            ops.append(["pend", f, g.getrandbits(32) >> m << m & 0xffffffff])
        elif x < .92:
            ops += [creq(g, dict(s, cfg=0), wild=.3) for _ in range(g.randrange(1, 6))] + [["settle"]]
        elif x < .95:
            bus = s["bus"] = g.randrange(1, 256)
            ops.append(access("acc", reg=15, wr=1))
        elif x < .97:
            ops += [["settle"], ["reset", 0], ["st", 0], ["reset", 1], ["st", 0]]
        elif not few and not s["pvm"]:
            # no credits for the message until the link partner gives some back
            f = g.randrange(s["pf"])
            ops += [["settle"], ["keep", 1]] + enable(f) + [["fc", [4, 5, 6]], intr()[:2] + [1, 3], ["fc", [4, 5, 6]]]
            i = intr()
            ops += [i + ([None] if len(i) == 4 else []) + [200], ["keep", 0]]
        if g.random() < .2:
            ops.append(["st", g.randrange(4)])
    for f in range(s["pf"]):
        ops += [[g.choice(["acc", "mgmt"]), 0, f, r, 15, 0] for r in (1, 4, 5, 6, 13, 15, PM[fam], EXP[fam], 64, MSI[fam], MSI[fam] + 3, MSI[fam] + 5, MSIX[fam], MSIX[fam] + 1, EXP[fam] + 1, EXP[fam] + 2, EXP[fam] + 4)]
    ops = [o + [bus] if o[0] == "acc" and len(o) == 6 else o for o in ops]
    s["ops"] = ops + [["st", 0], ["fc", [0, 1, 2, 4, 5, 6]]]
    s["cost"] = len(ops) + 20
    return s


def run(ctx):
    ctx.model("UsCfgMC", "SPECIFICATION Spec\nCONSTANTS Inits=%s Top=%d Vecs={0,1,2}\nINVARIANTS Credits Counters Delivered Exclusive\nCHECK_DEADLOCK FALSE\n" % ctx.pick(("{0,1,5,127}", 300), ("{0,1,2,5,60,127}", 700)), name="UsCfgMC")
    names = table(ctx)
    sc = []
    for c in CONF:
        sc += [scen(ctx, c, k, names) for k in range(ctx.pick(10, 80))]
    runs = ctx.sim(sc, top="usdev")
    for s, ev in runs:
        for e in ev:
            if e["ev"] in ("acc", "int", "st", "fc"):
                ctx.count({"acc": "accesses_" + e.get("via", ""), "int": "interrupts", "st": "status_snapshots", "fc": "credit_snapshots"}[e["ev"]])
    ctx.report(ctx.validate("UsCfgTrace", runs))
