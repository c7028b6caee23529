"""Stratix 10 and P-Tile device models: requests and completions in both directions, configuration output, credits, MSI requests."""
from checks.usscen import addr, be
from checks.c15 import table
from checks.c20 import pattern
from checks.c22 import cbars, creq

CONF = [("s", 256, 1, dict(pcie_generation=3, pcie_link_width=8, pld_clk_frequency=250e6)), ("s", 256, 1, dict(pcie_generation=1, pcie_link_width=1, pld_clk_frequency=125)),
        ("s", 512, 1, {}), ("s", 512, 2, dict(pcie_generation=3)),
        ("t", 128, 1, {}), ("t", 256, 1, dict(pcie_generation=3, pcie_link_width=16)), ("t", 512, 1, dict(pld_clk_frequency=250e6)), ("t", 512, 2, dict(pcie_generation=4, pcie_link_width=16, pld_clk_frequency=500e6)),
        ("s", 256, 2, {}), ("s", 512, 4, {}), ("t", 256, 2, {}), ("t", 512, 4, {})]
CAPS = dict(s=dict(PM=0x10, MSI=0x14, EXP=0x1c, MSIX=0x2c, AER=0x40), t=dict(PM=0x10, MSI=0x14, MSIX=0x1c, EXP=0x2c, AER=0x40))


def urq(g, s):
    """one request of the user logic"""
    fn = g.randrange(s["pf"])
    d = dict(rid=fn, attr=g.randrange(8), tc=g.randrange(8), at=g.choice([0, 0, 0, 1, 2]), tag=g.randrange(256))
    x = g.random()
    if x < .5:
        n = g.choice([1, 1, 2, 3, 4, 8, 16, 31, 32])
        d.update(t="MEM_WRITE", n=n, a=addr(g, n), ep=int(g.random() < .05))
    elif x < .9:
        n = g.choice([1, 1, 2, 3, 5, 8, 16, 17, 32, 33, 64]) if g.random() < .9 else g.choice([128, 255, 256, 512, 1024])
        d.update(t="MEM_READ", n=n, a=addr(g, n))
    elif x < .95:
        n = 1
        d.update(t=g.choice(["IO_READ", "IO_WRITE"]), n=1, a=addr(g, 1, 0), at=0)
    else:
        n = 1
        d.update(t=g.choice(["CFG_READ_0", "CFG_WRITE_0", "CFG_READ_1", "CFG_WRITE_1"]), n=1, a=g.randrange(1024) * 4, cid=g.getrandbits(16), at=0)
    d["fbe"], d["lbe"] = be(g, n)
    if d["a"] > 0xffffffff:
        d["t"] += "_64"
    return ["rq", d]


def base(ctx, c, k, names, pf=None):
    g = ctx.rng
    fam, w, n, conf = c
    s = dict(driver="inteldev", sid=f"{fam}{w}x{n}.{CONF.index(c)}.{k}", fam=fam, w=w, n=n, conf=conf, names=names, opt=1 if fam == "t" or g.random() < .9 else 0, lt=int(fam == "s" and g.random() < .5), port=0 if fam == "s" or conf.get("pcie_link_width") == 16 else g.randrange(4 if w == 128 else 2),
             pf=pf or g.choice([1, 1, 2, 3, 4]), mps=g.choice([128, 256, 512, 1024]), ext=g.randrange(2), seed=g.getrandbits(30), bus=g.randrange(1, 256), kw={}, never=[],
             fc=g.choice([[64, 1024, 64, 64, 0, 0], [0] * 6, [g.choice([1, 8, 127]), g.choice([64, 2047]), g.choice([2, 90]), g.choice([2, 64]), g.choice([0, 40]), g.choice([0, 512])]]),
             fail=g.choice([0, 0, .2]), nodata=g.choice([0, .1]), poison=g.choice([0, .1]), bogus=g.choice([0, .2]), anysplit=g.randrange(2), delay=g.choice([[0], [0, 0, 1, 5, 20]]), ccfail=g.choice([0, .2]), cfg=g.choice([0, .2]))
    s["bars"] = [[] for _ in range(s["pf"])]
    cbars(g, s)
    s["fnpar"], s["attrs"] = [], []
    for f in range(s["pf"]):
        p = dict(msi=g.choice([0, 1, 2, 4, 8, 16, 32, 1, 32]), msix=int(g.random() < .6), size=g.randrange(2048), tbir=g.randrange(6), pbir=g.randrange(6), toff=g.randrange(1 << 27), poff=g.randrange(1 << 27))
        s["fnpar"].append(p)
        if p["msi"]:
            s["kw"][f"pf{f}_msi_enable"] = True
            s["kw"][f"pf{f}_msi_count"] = p["msi"]
        if p["msix"]:
            # offsets are passed in units of eight bytes: the parameter is the register field
            s["kw"].update({f"pf{f}_msix_enable": True, f"pf{f}_msix_table_size": p["size"], f"pf{f}_msix_table_bir": p["tbir"], f"pf{f}_msix_pba_bir": p["pbir"],
                            f"pf{f}_msix_table_offset": p["toff"] * 8, f"pf{f}_msix_pba_offset": p["poff"] * 8})
        s["attrs"].append(dict(pcie_cap=dict(interrupt_message_number=g.randrange(32), current_link_speed=g.randrange(1, 5), negotiated_link_width=g.choice([1, 2, 4, 8, 16])),
                               pm_cap=dict(no_soft_reset=g.randrange(2)), aer_ext_cap=dict(advanced_error_interrupt_message_number=g.randrange(32)),
                               msi_cap=dict(msi_per_vector_mask_capable=int(fam == "t" and g.random() < .3))))
    return s


class Acc:
    """configuration accesses"""
    def __init__(self, g, s):
        self.g, self.s, self.bus = g, s, s["bus"]

    def __call__(self, fn=None, reg=None, data=None, wr=None, be=None):
        g, s, O = self.g, self.s, CAPS[self.s["fam"]]
        fn = g.randrange(s["pf"]) if fn is None else fn
        if reg is None:
            x = g.random()
            reg = g.choice([1, 1, 15, O["EXP"] + 2, O["EXP"] + 2, O["EXP"] + 4, O["EXP"] + 6, O["EXP"] + 7, O["EXP"] + 10, O["MSI"], O["MSI"] + 4, O["MSI"] + 1, O["MSI"] + 2, O["MSI"] + 3, O["MSIX"], O["AER"] + 2, O["AER"] + 3, O["AER"] + 5]) if x < .75 \
                else g.randrange(64) if x < .9 else g.randrange(1024)
            if 4 <= reg <= 9 and g.random() < .8:
                reg = 15
        wr = g.randrange(4) > 0 if wr is None else wr
        d = g.choice([0xffffffff, 0, g.getrandbits(32), g.getrandbits(32), 1 << g.randrange(32)]) if data is None else data
        if reg == 3:
            d &= ~(1 << 30)
        if reg == O["EXP"] + 4:
            d &= ~0x30
        if reg == 1 and data is None and g.random() < .6:
            d |= 7
        b = g.choice([15, 15, 15, 3, 12, 1, 2, 4, 8, g.randrange(16)]) if be is None else be
        return ["acc", int(wr), fn, reg, b, d, self.bus]

    def enum(self):
        g, s, o = self.g, self.s, []
        for f in range(s["pf"]):
            for b in s["bars"][f]:
                o.append(self(f, 4 + b["i"], b["addr"] & 0xffffffff, 1, 15))
                if b["ext"]:
                    o.append(self(f, 5 + b["i"], b["addr"] >> 32, 1, 15))
            o.append(self(f, 1, g.choice([7, 7, 7, 6, 5, 3, 0x447]), 1, 3))
        return o

    def enable(self, fn):
        g, O = self.g, CAPS[self.s["fam"]]
        return [self(fn, 1, g.choice([4, 6, 7, 7, 7]), 1, 15), self(fn, O["MSI"], 1 << 16 | g.randrange(6) << 20, 1, 15), self(fn, O["MSI"] + 1, g.getrandbits(32), 1, 15),
                self(fn, O["MSI"] + 2, g.choice([0, 0, g.getrandbits(32)]), 1, 15), self(fn, O["MSI"] + 3, g.getrandbits(16), 1, 15), self(fn, O["MSI"] + 4, 0, 1, 15)]


FIN = [["pause", "rx", 0], ["pause", "tx", 0], ["keep", 0], ["hold", 0], ["cqhold", 0], ["settle"]]


def mix(ctx, c, k, names):
    g = ctx.rng
    s = base(ctx, c, k, names)
    fam = s["fam"]
    acc = Acc(g, s)
    ops = acc.enum()

    def msi():
        fn = g.randrange(s["pf"])
        m = max(s["fnpar"][fn]["msi"], 1)
        return ["msi", fn, g.choice([0, m - 1, m - 1, g.randrange(m), g.randrange(32)]), g.randrange(8)]
    for _ in range(g.randrange(15, ctx.pick(45, 100))):
        x = g.random()
        if x < .3:
            ops += [creq(g, dict(s, cur=acc.bus)) for _ in range(g.choice([1, 1, 2, 4, 8]))]
        elif x < .52:
            ops += [urq(g, s) for _ in range(g.choice([1, 1, 2, 4, 8]))]
        elif x < .6:
            ops.append(["pause", g.choice(["rx", "tx"]), pattern(g)])
        elif x < .64:
            ops.append([g.choice(["hold", "cqhold"]), g.randrange(2)])
        elif x < .75:
            ops += FIN + [acc() for _ in range(g.randrange(1, 6))] + ([["tl"]] if g.random() < .4 else [])
        elif x < .8:
            ops += [["settle"], ["cr"]]
        elif x < .84:
            ops += [["par", [acc(reg=15, fn=0), creq(g, s), urq(g, s), creq(g, s)]]]
        elif x < .88:
            # renumbered
            b = g.randrange(1, 256)
            ops += FIN
            acc.bus = b
            ops += [acc(fn=0, reg=15, wr=g.randrange(2)) for _ in range(g.randrange(1, 3))] + [["tl"]]
        elif x < .96 and fam == "s":
            f = g.randrange(s["pf"])
            ops += FIN + acc.enable(f) + [msi() for _ in range(2)] + [["msi", f, g.choice([0, max(s["fnpar"][f]["msi"], 1) - 1]), g.randrange(8)]]
        elif x < .98:
            ops += [["wait", g.choice([1, 10, 100])]]
        else:
            ops += FIN + [["reset", 0], ["reset", 1]]
        if s["fc"][0] > 8 and g.random() < .06:
            ops += [["settle"], ["keep", 1]] + [urq(g, s) for _ in range(g.randrange(1, 6))] + [["settle"], ["cr"], ["keep", 0], ["settle"], ["cr"]]
    s["ops"] = ops + FIN + [["tl"], ["cr"]] + [acc(f, r, 0, 0) for f in range(s["pf"]) for r in (1, 4, 5, 9, CAPS[fam]["MSI"], CAPS[fam]["MSIX"], CAPS[fam]["EXP"] + 2)] + [["settle"]]
    s["cost"] = len(ops) + 30
    return s


def full(ctx, c, k, names, kind):
    """the buffer for completions fills up: headers or data"""
    g = ctx.rng
    s = base(ctx, c, k, names, pf=g.choice([1, 2]))
    s["sid"] = f"f{kind}" + s["sid"]
    s.update(bogus=0, fc=[0] * 6)
    s["bars"] = [[dict(i=0, size=4096, addr=1 << 20, ext=False, io=False, pf=0)]] + [[] for _ in range(s["pf"] - 1)]
    h, d = (770, 2432) if s["fam"] == "s" else [(1144, 2888), (572, 1444), (286, 722), (286, 722)][s["port"]]
    acc = Acc(g, s)
    ops = acc.enum() + [["settle"]]
    for _ in range(2):
        if g.random() < .5:
            # requests in between do not count
            ops += [["pause", "rx", 1]] + [creq(g, s, np=False, wild=0) for _ in range(g.choice([5, 30]))] + [["settle"]]
        n = h + g.choice([-3, 0, 40, 60]) if kind == "h" else d // 8 // (32 if kind == "D" else 1) + g.choice([-1, 8, 30])
        ops += [["pause", "rx", 1], ["cpls", n, 0 if kind == "h" else 32 if kind == "d" else 128, 0], ["settle"], ["pause", "rx", g.choice([0, [1, 0]])]]
        if g.random() < .5:
            ops += [["wait", 200], ["cpls", 40, -1, s["pf"] - 1]]
        ops += [["pause", "rx", 0], ["settle"]]
    if kind == "r":
        # requests passing through make no room for completions
        m = 30
        ops += [["pause", "rx", 1]] + [["req", dict(rid=0, tc=0, attr=0, at=0, tag=i, t="MEM_WRITE", n=1, a=1 << 20, fbe=15, lbe=0)] for i in range(m)] + [["settle"], ["cpls", h - 10, 0, 0], ["settle"], ["pause", "rx", [1] * 7 + [0]], ["wait", 8 * m], ["pause", "rx", 1], ["settle"],
                ["cpls", 60, 0, 0], ["settle"], ["pause", "rx", 0], ["settle"]]
    s["ops"] = ops
    s["cost"] = 2 * h
    return s


def run(ctx):
    ctx.model("IntelDevMC", "SPECIFICATION Spec\nINVARIANTS Pieces\nCHECK_DEADLOCK FALSE\n", name="IntelDevMC")
    names = table(ctx)
    sc = []
    for c in CONF:
        sc += [mix(ctx, c, k, names) for k in range(ctx.pick(8, 80))]
    for i, c in enumerate(ctx.pick([CONF[2], CONF[6], CONF[4]], CONF)):
        sc += [full(ctx, c, k, names, kind) for k, kind in enumerate(ctx.pick("hdr"[i % 3] + "r", "hdrhdr"))]
    runs = ctx.sim(sc, top="intel")
    for s, ev in runs:
        for e in ev:
            if e["ev"] in ("dn", "rx", "tx", "up", "int", "tl", "cr"):
                ctx.count(e["ev"])
    ctx.report(ctx.validate("IntelDevTrace", runs))
