"""Configuration registers: random functions, random writes, the whole space compared after each of them."""
import json, re


def table(ctx):
    r = ctx.tlc("ConfigGen", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", workers=1, count=False)
    t = {}
    for m in re.findall(r'^"GEN (.*)"$', r.out, re.M):
        o, n, w = json.loads(json.loads('"' + m + '"'))
        d = t.setdefault(o, {})
        d[n] = max(d.get(n, 0), w)
    assert len(t) == 9, r.out[-2000:]
    return t


SKIP = {"header_layout", "capabilities_list", "capabilities_ptr"}


def attrs(g, t):
    d = {}
    for n, w in t.items():
        if n in SKIP:
            continue
        d[n] = g.choice([0, (1 << w) - 1, g.getrandbits(w), g.getrandbits(w)])
        if w == 1:
            d[n] = bool(d[n])
    return d


def function(g, t, k):
    at = attrs(g, dict(t["FN"], **t["T1" if k == "br" else "T0"]))
    bars, i, n = [], 0, 2 if k == "br" else 6
    while i < n:
        b = dict(i=i)
        kind = g.choice("-mmpqi")
        if kind == "i":
            b.update(io=1, size=1 << g.randrange(2, 12))
        elif kind in "mp":
            b.update(size=1 << g.randrange(4, 31), pf=int(kind == "p"))
        elif kind == "q" and i + 1 < n:
            b.update(ext=1, pf=g.randrange(2), size=1 << g.randrange(4, 44))
        if "size" in b:
            if g.random() < .2 and b["size"] > 64:
                b["size"] -= g.randrange(1, b["size"] // 2)
            bars.append(b)
        i += 2 if b.get("ext") else 1
    caps = [dict(ty="PM", at=attrs(g, t["PM"])), dict(ty="EXP", at=attrs(g, t["EXP"]))]
    std = [x for x in ("MSI", "MSIX") if g.random() < .75]
    g.shuffle(std)
    ext = [x for x in ("AER", "EXP2") if g.random() < .7]
    g.shuffle(ext)
    caps += [dict(ty=x, at=attrs(g, t[x])) for x in std + ext]
    for c in caps:
        if c["ty"] == "MSI":
            # a pending bit that may be sent goes away with the message (C17): one enabled vector at most, and not that one
            c["at"].update(msi_multiple_message_capable=0) if g.random() < .5 else c["at"].update(msi_pending_bits=0)
            c["at"]["msi_pending_bits"] &= ~1
    for c in caps:
        if c["ty"] == "EXP2" and g.random() < .6:
            c["len"] = 3 + g.choice([1, 2, 4, 8, 16])
            for l in range(2 * (c["len"] - 3)):
                for n in ("downstream_port_8gt_transmitter_preset", "downstream_port_8gt_receiver_preset_hint", "upstream_port_8gt_transmitter_preset", "upstream_port_8gt_receiver_preset_hint"):
                    c["at"][f"{n}.{l}"] = g.randrange(16 if n.endswith("preset") else 8)
    return dict(k=k, at=at, bars=bars, rom=g.choice([0, 0, 11, 16, 24]), caps=caps, bus=g.randrange(256), dev=g.randrange(32), fnum=g.randrange(8))


def steps(g, fn, n):
    out = []
    hot = [1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15]
    for _ in range(n):
        k = g.randrange(10)
        r = g.choice(hot) if k < 4 else g.randrange(16, 56) if k < 8 else g.randrange(64, 100) if k == 8 else g.randrange(1024)
        be = g.choice([15, 15, 3, 12, 1, 2, 4, 8, g.randrange(16)])
        d = g.choice([0, 0xffffffff, g.getrandbits(32), g.getrandbits(32), 1 << g.randrange(32), 0xffffffff ^ 1 << g.randrange(32)])
        if r == 3 and not fn["at"]["bist_capable"]:
            d &= ~(1 << 30)
        if g.random() < .15:
            out.append(["r", r, be])
        else:
            out.append(["w", r, be, d, int(g.random() < .5)])
    return out


def run(ctx):
    g = ctx.rng
    ctx.model("ConfigMC", "SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANTS ReadOnly ClearOnly Exact\nCHECK_DEADLOCK FALSE\n" % ctx.pick(2, 4), name="ConfigMC")
    t = table(ctx)
    sc = []
    for k in range(ctx.pick(120, 800)):
        fn = function(g, t, "br" if k % 3 == 0 else "ep")
        sc.append(dict(driver="cfgspace", sid=k, fn=fn, steps=steps(g, fn, ctx.pick(60, 100))))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] in ("wr", "dump"):
                ctx.count({"wr": "writes", "dump": "whole_space_reads"}[e["ev"]])
    ctx.report(ctx.validate("ConfigTrace", runs))
