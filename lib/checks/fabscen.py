"""Random and specification-generated hierarchies and workloads for the fabric checks."""
import json, re

K = 1024


def bar(g, maxlog=16, kinds="mmmpxi"):
    k = g.choice(kinds)
    if k == "i":
        return dict(size=1 << g.randrange(4, 9), io=1)
    if k == "p":
        return dict(size=1 << g.randrange(7, maxlog + 1), ext=1, pf=1)
    if k == "x":
        return dict(size=1 << g.randrange(7, maxlog + 1), ext=1)
    if k == "q":
        return dict(size=1 << g.randrange(7, maxlog + 1), pf=1)
    return dict(size=1 << g.randrange(7, maxlog + 1))


def fn(g, nb=None, maxlog=14, kinds="mmmpxi", **kw):
    bars, used = [], 0
    for _ in range(g.randrange(1, 4) if nb is None else nb):
        b = bar(g, maxlog, kinds)
        if g.random() < .15 and used < 4:
            b["skip"] = 1
            used += 1
        b["short"] = g.randrange(2)
        if g.random() < .2:
            b["cb"] = g.choice([[0], [0, 7], [1, 40, 200]])
        used += 2 if b.get("ext") else 1
        if used > 6:
            break
        bars.append(b)
    f = dict(bars=bars, did=g.randrange(1, 0xfffe), vid=g.randrange(2, 0xfffe), cls=g.getrandbits(24), rev=g.getrandbits(8), svid=g.getrandbits(16), sid=g.getrandbits(16))
    f.update(kw)
    return f


def ep(g, nf=1, gaps=False, **kw):
    fns = [fn(g, **kw) for _ in range(nf)]
    if gaps and nf > 1:
        nums = [0] + sorted(g.sample(range(1, 8), nf - 1))
        for f, n in zip(fns, nums):
            f["fnum"] = n
    return dict(t="ep", fns=fns, ctor=g.choice([0, 0, 1, 2]))


def ports(n):
    """Number of functions/ports a forest description contains, for cost estimates."""
    return sum(1 + (len(p["fns"]) if p["t"] != "sw" else 1 + ports(p["ports"])) for p in n)


def forest(g, n, depth=3, leaf=None):
    """Random ordered forest with n ports."""
    leaf = leaf or (lambda: ep(g))
    out = []
    while n > 0:
        k = g.randrange(1, n + 1)
        if k == 1 or depth == 0:
            p = leaf()
            if p["t"] == "ep" and len(p["fns"]) == 1 and g.random() < .08:
                p = dict(t="ie", fns=p["fns"])       # integrated in the root complex or switch
            out.append(p)
            n -= 1
        else:
            out.append(dict(t="sw", ports=forest(g, k - 1, depth - 1, leaf)))
            n -= k
    return out


def shape(f, leaf):
    """Forest from a shape generated by the specification: nested lists, [] = endpoint."""
    return [leaf() if not p else dict(t="sw", ports=shape(p, leaf)) for p in f]


def topo(g, n=None, host=True, **kw):
    t = dict(ports=forest(g, n or g.randrange(1, 6), **kw))
    if host:
        t["host"] = hosts(g)
        if g.random() < .6:
            t["bad"] = bads(g)
    return t


def bads(g):
    """Host regions behind which every access fails."""
    return [dict(addr=g.choice([0x70000000, 0xa0000000, 11 << 32, 1 << 44]), size=g.choice([16, 256, 4096])), dict(addr=0x70000000, size=g.choice([16, 64]), io=1)]


def rawbad(g, t, n):
    out = []
    for _ in range(n if t.get("bad") else 0):
        b = g.choice(t["bad"])
        m = 1 if b.get("io") or g.random() < .5 else g.randrange(1, 5)
        ty = g.choice(["IORd", "IOWr"] if b.get("io") else ["MRd", "MRd", "MRd", "MWr"])
        out.append(dict(op="raw", f=g.choice([0] + eps(t) * 3), ty=ty, abs=b["addr"] + 4 * g.randrange(0, b["size"] // 4 - m + 1), n=m,
                        fb=g.choice([15, 15, 1, 6, 5] if m == 1 else [15, 8]), lb=0 if m == 1 else 15, tc=0, at=0))
    return out


def hosts(g):
    h = [dict(size=g.choice([4 * K, 16 * K])), dict(size=8 * K)]
    if g.random() < .6:
        h.append(dict(size=8 * K, addr=(1 << 32) * g.randrange(2, 9) - g.choice([0, 0x1000])))
    h.append(dict(size=1 * K, io=1))
    return h


def walk(ports, start=1):
    """Yields (fid, kind, spec) in the driver's numbering."""
    i = start
    for p in ports:
        if p["t"] == "ie":
            yield i, "ep", p["fns"][0]
            i += 1
            continue
        yield i, "port", p
        i += 1
        if p["t"] == "ep":
            for f in p["fns"]:
                yield i, "ep", f
                i += 1
        else:
            yield i, "up", p
            i += 1
            sub = list(walk(p["ports"], i))
            yield from sub
            i = max([x[0] for x in sub], default=i - 1) + 1


def regions(t):
    """[(region id, owner fid, io, size)] of endpoint BARs and host regions."""
    out = []
    for f, k, s in walk(t["ports"]):
        if k == "ep":
            i = 0
            for b in s["bars"]:
                i += b.get("skip", 0)
                out.append((f * 10 + i, f, int(bool(b.get("io"))), b["size"]))
                i += 2 if b.get("ext") else 1
    for k, h in enumerate(t.get("host", [])):
        out.append((900 + k, 0, int(bool(h.get("io"))), h["size"]))
    return out


def eps(t):
    return [f for f, k, s in walk(t["ports"]) if k == "ep"]


def scen(t, steps, **kw):
    return dict(driver="fabric", topo=t, steps=steps, cost=1 + ports(t["ports"]) + len(steps) // 8, **kw)


def forests(ctx, n):
    """All ordered forests with n ports, enumerated by TLC from the specification."""
    r = ctx.model("EnumGen", f"SPECIFICATION Spec\nCONSTANT N = {n}\nCHECK_DEADLOCK FALSE\n", name=f"EnumGen {n}", workers=1)
    return [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"GEN (.*)"$', r.out, re.M)]


# ------------------------------------------------------------------ workloads
def length(g, big=3000):
    k = g.randrange(10)
    if k < 3:
        return g.randrange(0, 9)
    if k < 6:
        return g.randrange(1, 70)
    if k < 8:
        return g.randrange(100, 300)
    return g.randrange(1, big)


def accesses(g, f, spans, n, big=3000, attrs=True, iolen=40):
    """n sequential accesses of agent f within its private spans [(region, io, lo, hi)]."""
    out = []
    for _ in range(n):
        r, io, lo, hi = g.choice(spans)
        m = min(length(g, big), hi - lo, iolen if io else 1 << 30)
        o = g.randrange(lo, hi - max(m, 1) + 1)
        if not io and g.random() < .25 and hi - lo > 4200:       # around a page boundary
            p = (g.randrange(lo, hi) & ~0xfff)
            o = max(lo, min(hi - max(m, 1), p - g.randrange(0, max(1, m + 1))))
        s = dict(op="acc", f=f, w=int(g.random() < .5), r=r, o=o, n=m)
        if f == 0 and r < 900 and g.random() < .2:
            s["via"] = g.choice([1, 1, 2, 3])
        if attrs and not io and s.get("via", 0) < 2:
            if g.random() < .3:
                s["at"] = g.randrange(8)
            if g.random() < .3:
                s["tc"] = g.randrange(8)
        out.append(s)
        if g.random() < .3 and s["w"]:
            out.append(dict(s, w=0))
    return out


def sameport(t):
    """fid -> set of fids on the same device (peer accesses between them never leave the device's link)."""
    out = {}
    cur = []

    def flush():
        for a in cur:
            out[a] = set(cur)
    last = None
    for f, k, s in walk(t["ports"]):
        if k == "ep":
            cur.append(f)
        else:
            flush()
            cur = []
    flush()
    return out


def phase(g, t, nbr, nacc, big=3000, io=True, p2p=True, host_agent=.4):
    """Parallel branches working on disjoint spans, then a quiescent comparison of all memories."""
    regs = regions(t)
    fs = eps(t)
    same = sameport(t)
    cuts = {}
    for r, own, i, size in regs:
        c = sorted(g.sample(range(1, size), min(nbr - 1, size - 1))) if nbr > 1 else []
        e = [0] + c + [size]
        cuts[r] = [(e[k], e[k + 1]) for k in range(len(e) - 1)]
    brs = []
    for b in range(nbr):
        f = 0 if g.random() < host_agent or not fs else g.choice(fs)
        spans = [(r, i) + cuts[r][b] for r, own, i, size in regs
                 if b < len(cuts[r]) and (io or not i) and own != f and (f == 0 or own == 0 or (p2p and own not in same[f]))]
        if spans:
            brs.append(accesses(g, f, spans, nacc, big))
    return [dict(op="par", b=brs), dict(op="dump", t=4000)]


def settings(g, t):
    out = []
    for f in [0] + eps(t):
        v = {}
        if f == 0:
            if g.random() < .5:
                v["mps"] = g.randrange(0, 6)
            if g.random() < .5:
                v["mrrs"] = g.randrange(0, 6)
        else:
            if g.random() < .5:
                v["mrrs"] = g.randrange(0, 6)
            if g.random() < .5:
                v["etag"] = g.randrange(2)
        if v:
            out.append(dict(op="set", f=f, v=v))
    return out


# ------------------------------------------------------------------ raw requests
def be_legal(g, n, o, io=False):
    """A byte enable pair PCIe allows for an n-dword request at dword offset o."""
    if n == 1:
        return g.choice([0, g.randrange(16), g.randrange(16), g.randrange(1, 16)]), 0
    if n == 2 and o % 8 == 0:
        return g.randrange(1, 16), g.randrange(1, 16)
    if n == 2:
        return g.choice([15, 14, 12, 8]), g.choice([1, 3, 7, 15])
    return g.choice([15, 14, 12, 8]), g.choice([1, 3, 7, 15])


def raws(g, f, targets, n, mps=128, write=.5, mrrs=4096, big=False):
    """Raw memory and I/O requests of agent f with arbitrary legal byte enables."""
    out = []
    for _ in range(n):
        r, io, lo, hi = g.choice(targets)
        lo, hi = (lo + 3) & ~3, hi & ~3
        if hi - lo < 4:
            continue
        w = g.random() < write
        k = g.randrange(10)
        nd = 1 if io or k < 4 else 2 if k < 7 else g.randrange(3, 9) if k < 9 or not big else g.choice([1024, 1023, 512, g.randrange(1, 1025), g.randrange(1, 1025)])
        nd = min(nd, (hi - lo) // 4, (mps if w else mrrs) // 4)
        o = g.randrange(lo, hi - 4 * nd + 1) & ~3
        if (o & 0xfff) + 4 * nd > 4096:
            o = (o + 4 * nd) // 4096 * 4096 - 4 * nd if (o + 4 * nd) // 4096 * 4096 - 4 * nd >= lo else o
            if (o & 0xfff) + 4 * nd > 4096:
                continue
        fb, lb = be_legal(g, nd, o)
        out.append(dict(op="raw", f=f, ty=("IOWr" if w else "IORd") if io else ("MWr" if w else "MRd"), r=r, o=o, n=nd, fb=fb, lb=lb,
                        tc=0 if io else g.randrange(8), at=0 if io else g.randrange(8)))
    return out


def rawphase(g, t, nbr, n, **kw):
    """Parallel branches of raw requests from any agents to any regions, then a comparison of all memories."""
    regs = regions(t)
    fs = eps(t)
    same = sameport(t)
    brs = []
    for b in range(nbr):
        f = 0 if g.random() < .4 or not fs else g.choice(fs)
        tg = [(r, i, 0, size) for r, own, i, size in regs if own != f and (f == 0 or own == 0 or own not in same[f])]
        if tg:
            brs.append(raws(g, f, tg, n, **kw))
    return [dict(op="par", b=brs), dict(op="dump", t=4000)]
