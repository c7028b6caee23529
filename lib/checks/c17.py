"""Interrupts: allocation model exhaustive, and random functions, allocations, signals and masks on the real code."""
from .fabscen import *


def irqfn(g):
    f = dict(bars=[], did=g.randrange(1, 0xfffe), vid=0x1234, cls=g.getrandbits(24))
    kind = g.choice(["msi", "msi", "msix", "msix", "both", "none"] if g.random() < .5 else ["msi", "msix", "both"])
    if g.random() < .4:
        f["bars"].append(dict(size=256))
    if kind in ("msi", "both"):
        f["msi"] = dict(mmc=g.choice([0, 1, 2, 3, 4, 5, 5]), a64=g.randrange(2), pvm=g.randrange(2))
    if kind in ("msix", "both"):
        n = g.choice([1, 2, 3, 5, 8, 17, 32, 33, 40, 47, 70, 100])
        if g.random() < .3:      # table behind the last register
            f["bars"] = [dict(size=128, ext=1), dict(size=128, ext=g.randrange(2), skip=0)]
            if not f["bars"][1]["ext"]:
                f["bars"][1]["skip"] = g.randrange(2)
        f["bars"].append(dict(size=8192, ext=int(g.random() < .4)))
        f["msix"] = dict(n=n, bar=len(f["bars"]) - 1, off=g.choice([0, 0x100, 0x800, 8, 0x128]), pba=0x1000)
        if g.random() < .3 and sum(1 + b.get("ext", 0) + b.get("skip", 0) for b in f["bars"]) < 6:
            f["bars"].append(dict(size=128))
    return f


def leaf(g):
    def mk():
        e = dict(t="ep", fns=[irqfn(g) for _ in range(g.choice([1, 1, 1, 2, 3, 4]))])
        if len(e["fns"]) > 1 and g.random() < .4:
            for f, n in zip(e["fns"], [0] + sorted(g.sample(range(1, 8), len(e["fns"]) - 1))):
                f["fnum"] = n
        return e
    return mk


def specs(t):
    return {f: s for f, k, s in walk(t["ports"]) if k == "ep"}


def alloc(g, f):
    lo = g.choice([1, 1, 1, 2, 4, 32])
    return dict(op="alloc", f=f, api=g.choice(["any", "any", "any", "msi", "msix"]), lo=lo, hi=g.choice([lo, 1, 3, 32, 32, 64]))


def sig(g, f, s):
    api = g.choice([k for k in ("msi", "msix") if s.get(k) is not None])
    top = (1 << s["msi"]["mmc"]) if api == "msi" else s["msix"]["n"]
    k = g.randrange(top) if g.random() < .9 else g.choice([top - 1, top, 31, 32])
    return dict(op="sig", f=f, k=k, api=api, at=g.choice([0, 0, 1, 2, 3]), tc=g.choice([0, 0, g.randrange(8)]))


def branch(g, f, s, n):
    out = []
    if s.get("msi") is None and s.get("msix") is None:
        return [alloc(g, f)]
    for _ in range(n):
        x = g.random()
        if x < .12:
            out.append(alloc(g, f))
        elif x < .17:
            pvm = s.get("msi") is not None and s["msi"]["pvm"]
            if pvm and g.random() < .3:
                out.append(dict(op="mask", f=f, m=0))
            out.append(dict(op="free", f=f))
            if pvm and g.random() < .5:      # what is pending is sent when the function is enabled again
                out += [dict(op="mask", f=f, m=g.choice([0, 0, 1 << g.randrange(4)])), dict(op="alloc", f=f, api="msi", lo=1, hi=32)]
        elif x < .32:
            out.append(dict(op="req", f=f, k=g.randrange(40)))
        elif x < .45 and s.get("msi") is not None and s["msi"]["pvm"]:
            out.append(dict(op="mask", f=f, m=g.choice([0, 0xffffffff, g.getrandbits(32), 1 << g.randrange(32)])))
            if g.random() < .4:
                out.append(dict(op="pend", f=f))
        else:
            out.append(sig(g, f, s))
            if g.random() < .2:
                out.append(dict(op="wait", t=g.randrange(1, 300)))
    return out


def run(ctx):
    g = ctx.rng
    for c in ctx.pick(['N=2 M=1 X={1, 3} S=2 A=1'], ['N=2 M=1 X={1, 3} S=2 A=2', 'N=3 M=1 X={3} S=1 A=1', 'N=2 M=2 X={1, 5} S=1 A=2']):
        ctx.model("MsiMC", f"SPECIFICATION Spec\nCONSTANTS {c}\nINVARIANTS Reaches Once Quiet\nCHECK_DEADLOCK FALSE\n", name="MsiMC " + c)
    sc = []
    for k in range(ctx.pick(80, 600)):
        t = dict(ports=forest(g, g.randrange(1, 6), depth=2, leaf=leaf(g)))
        sp = specs(t)
        steps = [dict(op="enum")]
        if g.random() < .6:
            steps += [dict(op="alloc", f=f, api="any", lo=1, hi=g.choice([1, 32])) for f in sp]
            for f in sp:
                steps += [dict(op="req", f=f, k=v) for v in range(g.choice([0, 2, 8, 40])) for _ in range(g.choice([1, 1, 2]))]
        for f, x in sp.items():      # from one kind of interrupt to the other
            if x.get("msi") is not None and x.get("msix") is not None and g.random() < .6:
                for api in g.choice([("msi", "msix"), ("msix", "msi"), ("msi", "msix", "msi")]):
                    steps += [dict(op="mask", f=f, m=0)] * x["msi"]["pvm"] + [dict(op="free", f=f), dict(op="alloc", f=f, api=api, lo=1, hi=g.choice([1, 8, 64]))]
        for _ in range(ctx.pick(3, 5)):
            steps.append(dict(op="par", b=[branch(g, f, s, g.randrange(1, 14)) for f, s in sp.items() if g.random() < .8]))
            if g.random() < .4:
                # many vectors of one function signalled at the same time
                f = g.choice(list(sp))
                if sp[f].get("msi") is not None or sp[f].get("msix") is not None:
                    steps.append(dict(op="par", b=[[sig(g, f, sp[f])] for _ in range(g.randrange(2, 24))]))
            steps.append(dict(op="quiet"))
        sc.append(dict(driver="msi", sid=k, topo=t, steps=steps, cost=4, lazy=k % 3 == 0))
    runs = ctx.sim(sc)
    for s, ev in runs:
        for e in ev:
            if e["ev"] in ("sig", "irq", "alloc", "msg", "mask"):
                ctx.count({"sig": "signals", "irq": "handler_runs", "alloc": "allocations", "msg": "messages", "mask": "mask_writes"}[e["ev"]])
    ctx.report(ctx.validate("MsiTrace", runs))
