"""Workloads for the UltraScale device models."""
CONF = [("u", 64, 0), ("u", 128, 0), ("u", 256, 0), ("u", 256, 1), ("p", 64, 0), ("p", 128, 0), ("p", 256, 0), ("p", 256, 1), ("p", 512, 0), ("p", 512, 1), ("p", 512, 2)]


def pattern(g):
    x = g.random()
    if x < .4:
        return 0
    if x < .6:
        return g.choice([[1, 0], [0, 0, 1], [1, 1, 0], [0, 1, 1, 1], [1] * 12 + [0] * 3])
    return [int(g.random() < g.choice([.2, .5, .8])) for _ in range(g.randrange(3, 40))] + [0]


def be(g, n, strict=False):
    if n == 1:
        return g.choice([15, 15, 15, 1, 2, 4, 8, 3, 6, 12, 7, 14] + ([] if strict else [0, 5, 9, 11])), 0
    return g.choice([15, 15, 14, 12, 8]), g.choice([15, 15, 7, 3, 1])


def addr(g, n, hi=.35):
    a = g.randrange(1, 1 << 20) << 12
    if g.random() < hi:
        a |= g.randrange(1, 1 << 32) << 32
    room = 1024 - n
    return a + 4 * min(room, g.choice([0, 1, 15, 16, 31, room, g.randrange(room + 1)]))


def rq(g, s, st, np=None, big=.1):
    """one request of the user logic"""
    dead = False
    x = g.random() if np is None else g.uniform(.5, .999) if np else .1
    fn = g.randrange(s["pf"])
    d = dict(rid=fn | (s["bus"] ^ 85) << 8, attr=g.randrange(8), tc=g.randrange(8), at=g.choice([0, 0, 0, 1, 2]))
    if x < .48:
        n = g.choice([1, 1, 2, 3, 4, 8, 16, 31, 32])
        d.update(t="MEM_WRITE", n=n, a=addr(g, n), ep=int(g.random() < .05))
        d["fbe"], d["lbe"] = be(g, n)
        d["tag"] = g.randrange(256)
    else:
        k = g.random()
        if k < .8:
            n = g.choice([1, 1, 2, 3, 5, 8, 16, 17, 32, 33, 64]) if g.random() >= big else g.choice([128, 255, 256, 512, 1024])
            d.update(t="MEM_READ", n=n, a=addr(g, n))
            d["fbe"], d["lbe"] = be(g, n)
        elif k < .9:
            d.update(t=g.choice(["IO_READ", "IO_WRITE"]), n=1, a=addr(g, 1, 0), fbe=15, lbe=0)
        elif k < .95:
            d.update(t=g.choice(["CFG_READ_0", "CFG_WRITE_0", "CFG_READ_1", "CFG_WRITE_1"]), n=1, a=g.randrange(1024) * 4, fbe=g.choice([15, 1, 8, 3]), lbe=0, cid=g.getrandbits(16), at=0)
        else:
            t = g.choice(["FETCH_ADD", "SWAP", "CAS"])
            n = g.choice([1, 2]) * (2 if t == "CAS" else 1)
            a = addr(g, n, 0)
            d.update(t=t, n=n, a=a - a % 16, fbe=15, lbe=15 if n > 1 else 0)
    if not s["ct"]:
        d["tag"] = g.randrange(256)
    if d["a"] > 0xffffffff:
        d["t"] += "_64"
    p = d["t"].startswith("MEM_WRITE")
    st["p" if p else "n"] += 1
    d["seq"] = (2 * st["p"] if p else 2 * st["n"] + 1) % 64
    if g.random() < .15:
        d.update(rie=1, rid=s["bus"] << 8 | fn)
    if g.random() < s.get("disc", 0):
        d["disc"] = 1
    if not s["cmd"][fn] & 4:
        d["dead"] = 1
    return ["rq", d]


def base(g, c, pf=None, ct=None, ext=None):
    fam, w, st = c
    pf = pf or g.choice([1, 1, 2] + ([4, 3] if fam == "p" else []))
    ct = g.randrange(2) if ct is None else ct
    ext = g.randrange(2) if ext is None else ext
    lim = 32 if not ext else 64 if fam == "u" else 256
    tags = list(range(lim))
    never = []
    if ct:
        g.shuffle(tags)
        k = g.choice([4, 16, lim - 4])
        tags, never = tags[:k], tags[k:]
        if not ext:
            never += [32, 200, 255]
    else:
        never = [] if ext and fam == "p" else list(range(32 if not ext else 64, 256))
    return dict(driver="usdev", fam=fam, w=w, straddle=st, pf=pf, ct=ct, ext=ext, bus=g.randrange(1, 256), bars=[[] for _ in range(pf)], cmd=[7] * pf, par=g.randrange(2),
                tags=tags, never=never, seed=g.getrandbits(30))


def finish(ops):
    return ops + [["hold", 0], ["cqhold", 0]] + [["pause", i, 0] for i in ("rq", "rc", "cq", "cc")] + [["settle"]]
