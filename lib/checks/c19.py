"""TLP headers, DLLPs, byte enables and descriptors: packed and parsed by the real code against the wire format of the specification."""
MR = ["MEM_READ", "MEM_READ_64", "MEM_READ_LOCKED", "MEM_READ_LOCKED_64"]
MW = ["MEM_WRITE", "MEM_WRITE_64"]
AT = ["FETCH_ADD", "FETCH_ADD_64", "SWAP", "SWAP_64", "CAS", "CAS_64"]
IO = ["IO_READ", "IO_WRITE"]
CF = ["CFG_READ_0", "CFG_WRITE_0", "CFG_READ_1", "CFG_WRITE_1"]
CP = ["CPL", "CPL_DATA", "CPL_LOCKED", "CPL_LOCKED_DATA"]
ALL = MR + MW + AT + IO + CF + CP
DATA = set(MW + AT + ["IO_WRITE", "CFG_WRITE_0", "CFG_WRITE_1", "CPL_DATA", "CPL_LOCKED_DATA"])
DL = ["ACK", "NAK", "DATA_LINK_FEATURE", "PM_ENTER_L1", "PM_ENTER_L23", "PM_ACT_ST_REQ_L1", "PM_REQ_ACK", "NOP", "INIT_FC1_P", "INIT_FC1_NP", "INIT_FC1_CPL",
      "INIT_FC2_P", "INIT_FC2_NP", "INIT_FC2_CPL", "UPDATE_FC_P", "UPDATE_FC_NP", "UPDATE_FC_CPL"]


def val(g, n, m=None):
    """a value of an n-bit field: corners, single bits, anything"""
    x = g.random()
    v = g.choice([0, (1 << n) - 1]) if x < .2 else 1 << g.randrange(n) if x < .45 else ((1 << n) - 1) ^ (1 << g.randrange(n)) if x < .55 else g.getrandbits(n)
    return v if m is None else v % m


def data(g, n):
    return [g.getrandbits(8) for _ in range(4 * n)]


def length(g, big):
    return g.choice([1, 1, 2, 3, 4, 5, 8, 31, 32, 33] + ([255, 256, 257, 511, 512, 513, 1023, 1024] if big else []) + [g.randrange(1, 40)])


def rnd(g, t, us=False):
    f = dict(t=t, tc=val(g, 3), ln=g.randrange(2), th=g.randrange(2), td=g.randrange(2), ep=g.randrange(2), attr=val(g, 3), at=g.randrange(3), length=0, cid=0, status=0, bcm=0,
             bc=0, rid=val(g, 16), tag=val(g, 8 if us else 10), fbe=0, lbe=0, la=0, addr=[0] * 8, ph=0, data=[])
    n = length(g, t in DATA and g.random() < .04 or t not in DATA)
    if t in CP:
        f.update(cid=val(g, 16), status=g.choice([0, 1, 2, 4]), bcm=g.randrange(2), bc=g.choice([1, 2, 3, 4, 4095, 4096, 1 + val(g, 12)]), la=val(g, 7))
        f["length"] = n if t in DATA else 0
    else:
        f.update(fbe=val(g, 4), lbe=val(g, 4), length=n)
        if t in CF:
            f["cid"] = val(g, 16)
            f["addr"] = [0] * 6 + [val(g, 4), val(g, 6) << 2]
        else:
            a = val(g, 64) if t.endswith("_64") else val(g, 32)
            f["addr"] = [(a >> (56 - 8 * i)) & 255 for i in range(8)]
            f["addr"][7] &= 0xfc
            f["ph"] = val(g, 2)
        if t in IO + CF:
            f["length"] = 1
    if t in DATA:
        f["data"] = data(g, f["length"])
    return f


def desc(g, k):
    t = g.choice(CP if k in ("cc", "rc") else MR + MW + AT + IO + (CF if k == "rq" else []))
    f = rnd(g, t, True)
    if t in CF or t in IO or t in CP:
        pass
    elif any(f["addr"][:4]) and not t.endswith("_64"):
        f["addr"][:4] = [0] * 4
    elif t.endswith("_64") and not any(f["addr"][:4]) and g.random() < .7:
        f["addr"][g.randrange(4)] = 1 << g.randrange(8)
    if t in CF:
        f["at"] = 0
    f.update(bar=g.randrange(7), ap=g.randrange(64), disc=g.randrange(2), rie=g.randrange(2), cie=g.randrange(2), seqn=g.randrange(64), err=g.choice([0, 1, 2, 3, 4, 5, 6, 8, 9]), rqc=g.randrange(2))
    if k == "cq":
        f["cid"] = g.randrange(65536)
    if k == "rc":
        f["la"] = val(g, 12)
    if t in MR + MW and f["length"] > 1:
        f["fbe"], f["lbe"] = f["fbe"] or 8, f["lbe"] or 1
    if t in CP and t in DATA:
        # as many payload dwords as the byte count asks for, or fewer when more completions follow
        bc = f["bc"] = 1 + val(g, 7) if g.random() < .7 else f["bc"]
        full = ((f["la"] & 3) + bc + 3) // 4
        n = full if g.random() < .6 or full == 1 else g.randrange(1, full)
        if n > 64 and g.random() < .95:
            n = g.randrange(1, 64)
        f["length"] = n
        f["data"] = data(g, n)
    if len(f["data"]) > 4096:
        f["data"] = f["data"][:4096]
    return f


def mal(g):
    """packets on either side of every validity rule"""
    t = g.choice(ALL)
    f = rnd(g, t)
    n = len(f["data"])
    x = g.randrange(8)
    if x == 0 and t in DATA:
        n += g.choice([-4, 4, -1, 1])
    elif x == 1 and t in DATA:
        f["length"] = g.choice([0, 1, 1024, 1025, 1100])
        n = f["length"] * 4
    elif x == 2 and t in MR + MW:
        k = g.choice([0, -4, 4]) + 4096 - 4 * f["length"]
        k = max(0, min(4092, k))
        f["addr"][6:8] = [f["addr"][6] & 0xf0 | k >> 8, k & 0xfc]
    elif x == 3 and t in IO + CF:
        f["length"] = g.choice([1, 2, 0, 1024])
        n = 4 * f["length"] if t in DATA else 0
        f["lbe"] = 0
    elif x == 4 and t in IO + CF:
        f["lbe"] = g.choice([0, 1, 15, 8])
    elif x == 5 and t in CP and t in DATA:
        f["bc"] = max(1, 4 * f["length"] + g.randrange(-8, 3))
    elif x == 6 and t in ("CPL", "CPL_LOCKED"):
        f["length"] = g.choice([0, 1, 5, 1024])
    elif t in IO + CF:
        f["lbe"] = 0
    return dict(op="chk", f=dict(f, data=[]), n=max(0, n))


def dllp(g, t):
    f = dict(t=t, seq=0, vc=0, hs=0, h=0, ds=0, d=0, fs=0, fa=0)
    if t in ("ACK", "NAK"):
        f["seq"] = val(g, 12)
    elif t == "DATA_LINK_FEATURE":
        f.update(fs=val(g, 23), fa=g.randrange(2))
    elif "FC" in t:
        f.update(vc=val(g, 3), hs=val(g, 2), h=val(g, 8), ds=val(g, 2), d=val(g, 12))
    return f


def crc16(b):
    crc = 0xffff
    for d in b:
        for i in range(8):
            fb = (crc >> 15 & 1) ^ (d >> i & 1)
            crc = (crc << 1 & 0xffff) ^ (0x100b if fb else 0)
    crc ^= 0xffff
    r = int(f"{crc:016b}"[::-1], 2)
    return [r & 255, r >> 8]


def run(ctx):
    g = ctx.rng
    ctx.model("WireMC", f"SPECIFICATION Spec\nCONSTANTS Wide={ctx.pick(40, 300)}\nINVARIANTS RoundTrip Sized Again\nCHECK_DEADLOCK FALSE\n", name="WireMC field pairs")
    it = []
    for t in ALL:
        for _ in range(ctx.pick(60, 900)):
            it.append(dict(op="tlp", f=rnd(g, t)))
        for n in ([1, 1023, 1024] if t in DATA and t not in IO + CF else []):
            f = rnd(g, t)
            f["length"], f["data"] = n, data(g, n)
            it.append(dict(op="tlp", f=f))
    # headers as bytes: any value of any bit outside the reserved codes
    for _ in range(ctx.pick(400, 6000)):
        t = g.choice(ALL)
        fm = dict(MEM_READ=0, MEM_WRITE=0x40, MEM_READ_64=0x20, MEM_WRITE_64=0x60, IO_READ=2, IO_WRITE=0x42, CFG_READ_0=4, CFG_WRITE_1=0x45, CPL=0x0a, CPL_DATA=0x4a, CAS_64=0x6e).get(t)
        if fm is None:
            continue
        b = [fm] + [g.getrandbits(8) for _ in range(15 if fm & 0x20 else 11)]
        b[1] &= 0xff
        b[2] &= ~8 if b[2] & 0xc == 0xc else 255
        if t in CP:
            b[6] = b[6] & 0x1f | g.choice([0, 1, 2, 4]) << 5
            b[11] &= 0x7f
        if t in CF:
            b[10] &= 15
            b[11] &= 0xfc
        if t in DATA:
            n = g.randrange(1, 9)
            b[2], b[3] = b[2] & 0xfc, n
            b += data(g, n)
        it.append(dict(op="raw", bytes=b))
    for _ in range(ctx.pick(1500, 12000)):
        it.append(mal(g))
    # byte ranges: every alignment with every short length, page ends and large requests
    for a in range(8):
        for n in range(0, ctx.pick(14, 40)):
            for has in (0, 1):
                x = g.getrandbits(61) << 3 | a
                it.append(dict(op="be", a=[(x >> (56 - 8 * i)) & 255 for i in range(8)], n=n, has=has))
    for _ in range(ctx.pick(150, 2000)):
        x = g.getrandbits(64)
        it.append(dict(op="be", a=[(x >> (56 - 8 * i)) & 255 for i in range(8)], n=g.choice([4096 - (x & 3), g.randrange(0, 4093), g.randrange(0, 300)]), has=int(g.random() < .4)))
    for fb in range(16):
        it.append(dict(op="bes", len=1, fbe=fb, lbe=0, a=4 * g.randrange(32)))
        for lb in range(1, 16):
            for n in ((2, g.choice([3, 5, 1024])) if fb else ()):
                it.append(dict(op="bes", len=n, fbe=fb, lbe=lb, a=4 * g.randrange(1024)))
    for t in DL:
        for _ in range(ctx.pick(20, 300)):
            it.append(dict(op="dllp", f=dllp(g, t)))
    for _ in range(ctx.pick(12, 120)):
        b = [g.choice([0, 16, 0x31, 0x20, 2, 0x40 | g.randrange(8), 0x90 | g.randrange(8), 0xe0])] + [g.getrandbits(8) for _ in range(3)]
        b += crc16(b)
        it.append(dict(op="crc", bytes=b))
        for i in range(48):
            c = list(b)
            c[i // 8] ^= 1 << i % 8
            if c[0] in (0, 2, 16, 0x20, 0x21, 0x23, 0x24, 0x31) or c[0] & 0xf8 in (0x40, 0x50, 0x60, 0xc0, 0xd0, 0xe0, 0x80, 0x90, 0xa0):
                it.append(dict(op="crc", bytes=c))
        for _ in range(30):
            c = list(b)
            for _ in range(g.randrange(2, 6)):
                i = g.randrange(8, 48)
                c[i // 8] ^= 1 << i % 8
            it.append(dict(op="crc", bytes=c))
        it.append(dict(op="crc", bytes=b[:5]))
        it.append(dict(op="crc", bytes=b + [0]))
    for k in ("cq", "cc", "rq", "rc"):
        for _ in range(ctx.pick(300, 5000)):
            it.append(dict(op="desc", k=k, f=desc(g, k), bad=g.getrandbits(16)))
    for x in it:
        ctx.count(x["op"])
    N = ctx.pick(16, 64)
    g.shuffle(it)
    runs = ctx.sim([dict(driver="wire", sid=f"w{k}", items=it[k::N]) for k in range(N)])
    ctx.report(ctx.validate("WireTrace", runs))
