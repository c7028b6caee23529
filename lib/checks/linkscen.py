"""Scenario generation and specification configurations shared by the link-layer checks C01..C04."""
import json, re

TRACE_CONSTS = " HMod = 4096\n DMod = 65536\n SMod = 4096\n"

CLAUSES = {
    "C01": {"credit_exceeded", "tlp_before_fc_init", "receiver_overflow"},
    "C02": {"update_value", "credit_update_deadline", "blocked_with_credit", "never_sent", "credit_not_returned", "update_before_init"},
    "C03": {"init_phase", "init_cycle", "init_value", "fc_init_incomplete", "tlp_before_fc_init", "update_before_init",
            "credit_exceeded", "blocked_with_credit"},
    "C04": {"tx_sequence", "tx_unknown_or_repeated", "tx_order", "ack_sequence", "ack_instead_of_nak", "nak_sequence", "spurious_nak",
            "dllp_kind", "delivered_unexpected", "delivery_order", "delivered_modified", "not_delivered", "not_acknowledged",
            "ack_deadline", "ack_window", "never_sent"},
}

INV = "INVARIANTS NoRxOverflow TlpAfterInit InitValues Conservation ExactlyOnce AckSound\nCHECK_DEADLOCK FALSE\n"
BASE = "SPECIFICATION Spec\nCONSTANTS HMod=4 DMod=8 "
MC = {
    "flow": BASE + 'SMod=8 Inits <- InitsA Budgets <- Bud50 Cls={"P"} Pre=TRUE Sizes={0,1} K=3 Faults=2\n' + INV,
    "classes": BASE + 'SMod=8 Inits <- InitsAB Budgets <- Bud40 Cls={"P","CPL"} Pre=TRUE Sizes={0,2} K=2 Faults=1\n' + INV,
    "handshake": BASE + 'SMod=8 Inits <- InitsA Budgets <- Bud10 Cls={"P"} Pre=FALSE Sizes={1} K=2 Faults=2\n' + INV,
    "handshake2": BASE + 'SMod=8 Inits <- InitsAB Budgets <- Bud11 Cls={"P","NP","CPL"} Pre=FALSE Sizes={0,1} K=2 Faults=1\n' + INV,
    "dll": BASE + 'SMod=8 Inits <- InitsA Budgets <- Bud61 Cls={"P"} Pre=TRUE Sizes={0} K=3 Faults=3\n' + INV,
    "live_init": BASE + 'SMod=4 Inits <- InitsA Budgets <- Bud10 Cls={"P"} Pre=FALSE Sizes={1} K=1 Faults=1\n'
                 'PROPERTIES InitDone AllSent AllAcked\nCHECK_DEADLOCK FALSE\n',
    "live_flow": BASE + 'SMod=8 Inits <- InitsA Budgets <- Bud50 Cls={"P"} Pre=TRUE Sizes={1} K=1 Faults=1\n'
                 'PROPERTIES InitDone AllSent AllAcked\nCHECK_DEADLOCK FALSE\n',
}


def fc(rng, kind):
    def pair(hmax, dmax, dmin):
        return [rng.randrange(1, hmax), rng.randrange(dmin, dmax)]
    if kind == "tiny":      # one header, exactly one maximum TLP
        return [[1, 256], [1, 1], [1, 256]]
    if kind == "small":
        return [pair(4, 520, 256), pair(4, 4, 1), pair(4, 520, 256)]
    if kind == "mid":
        return [pair(64, 1100, 256), pair(64, 64, 1), pair(64, 1100, 256)]
    if kind == "inf":
        return [[0, 0], [0, 0], [0, 0]]
    if kind == "mix":
        def m(h, d, dmin):
            a, b = pair(h, d, dmin)
            z = rng.randrange(4)
            return [0 if z & 1 else a, 0 if z & 2 else b]
        return [m(8, 600, 256), m(8, 8, 1), m(8, 600, 256)]
    if kind == "max":
        return [[2047, 32767], [2047, 32767], [2047, 32767]]
    if kind == "dev":
        return [[64, 1024], [64, 64], [0, 0]]
    raise ValueError(kind)


KINDS = ["tiny", "small", "mid", "inf", "mix", "dev", "max"]
C3 = ("P", "NP", "CPL")


def pair(rng, n, cnts=(30, 60, 120), kinds=KINDS, **over):
    out = []
    for k in range(n):
        ks = [rng.choice(kinds), rng.choice(kinds)]
        cnt = rng.choice(cnts)
        s = {"driver": "link", "seed": rng.getrandbits(30), "fc": [fc(rng, x) for x in ks], "kinds": ks,
             "speed": [rng.randrange(1, 6), rng.randrange(1, 6)], "width": [rng.choice([1, 2, 4, 8, 16]) for _ in "ab"],
             "send": [{c: {"n": cnt, "gap": rng.choice([[0], [0, 0, 100], [0, 1000]]), "maxb": rng.choice([64, 512, 4096])}
                       for c in C3} for _ in (0, 1)],
             "rel": {"mode": "delay", "d": rng.choice([[0], [0, 10, 500], [0, 5000], [100, 20000]])},
             "double": True, "hdelay": rng.choice([None, [0, 20]]), "cost": cnt}
        if rng.random() < .1:
            s["speed"] = 0           # no speed/width configured: zero-delay link
        s.update(over)
        out.append(s)
    return out


def held(rng, n):
    """Receivers sit on the buffers of one or two classes for a while; the others must keep flowing."""
    out = pair(rng, n, (20, 40), ["tiny", "small", "mix"])
    for s in out:
        s["rel"] = {"mode": "hold", "classes": rng.sample(C3, rng.choice([1, 1, 2])), "until": 400000, "d": [0, 200]}
        s["hdelay"] = None
    return out


def skew(rng, n):
    """Ends come up at different times and lose DLLPs while coming up."""
    out = pair(rng, n, (2, 5))
    for s in out:
        a, b = rng.choice([0, 0, 100, 5000, 20000]), rng.choice([0, 30, 1000, 12000])
        s["up"] = [a, b]
        s["drop"] = rng.choice([0, .3, .6, .9])
        s["drop_until"] = rng.choice([0, 2000, 40000])
        s["speed"], s["width"] = rng.choice([1, 3]), rng.choice([1, 4])
        s["limit"] = 2_000_000
        s["cost"] = 100
    return out


def wrap(rng, n):
    """Enough TLPs to wrap the sequence and the header credit counters; large ones wrap the data counters."""
    out = []
    for k in range(n):
        s = pair(rng, 1, (1,), ["mid", "small", "dev"] if k % 2 == 0 else ["mid", "max"])[0]
        if k % 2 == 0:
            s["send"] = [{"P": {"n": 4300, "bytes": [0, 0, 4]}, "NP": {"n": 40}}, {"CPL": {"n": 4300, "bytes": [0, 4]}}]
        else:
            s["send"] = [{"P": {"n": 290, "bytes": [4096, 4096, 4080]}}, {"CPL": {"n": 290, "bytes": [4096, 4092]}}]
        s.update(rel={"mode": "delay", "d": [0, 0, 30]}, double=k % 4 == 0, hdelay=None, speed=[5, 5], width=[16, 16], cost=4500)
        out.append(s)
    return out


def gen_scripts(ctx, num, depth=120, warm=0):
    """Behaviours of the environment of one port, generated by TLC from LinkGen.tla."""
    cfg = f"""SPECIFICATION Spec
CONSTANTS HMod=4096 DMod=65536 SMod=4096 Depth={depth} Inits <- AllInits Tag=1
INVARIANTS Emit Safe
CHECK_DEADLOCK FALSE
"""
    r = ctx.model("LinkGen", cfg, name=f"LinkGen simulate depth {depth}", workers=1,
                  args=["-simulate", f"num={num}", "-depth", str(depth + 3), "-seed", str(ctx.rng.getrandbits(30))])
    out = []
    for m in re.finditer(r'^"GEN (.*)"$', r.out, re.M):
        out.append(json.loads(json.loads('"' + m.group(1) + '"')))
    uniq = {json.dumps(s): s for s in out}
    out = list(uniq.values())[:num]
    return [{"driver": "link", "entry": "peer", "sid": f"g{warm}_{depth}_{i}", "seed": ctx.rng.getrandbits(30), "script": s,
             "warm": warm and warm - ctx.rng.randrange(60), "every": ctx.rng.choice([16, 16, 300, 400, 600]), "cost": len(s) + 20 * warm} for i, s in enumerate(out)]


def go(ctx, models, scens):
    for m in models:
        ctx.model("LinkMC", MC[m], name="LinkMC " + m)
    for i, s in enumerate(scens):
        if "sid" not in s:
            s["sid"] = f"p{i}"
    runs = ctx.sim(scens)
    for s, ev in runs:
        for e in ev:
            if e["ev"] in ("tx", "txd", "dlv", "rel"):
                ctx.count(e["ev"] + ("_" + e["k"] if "k" in e else ""))
            if e["ev"] in ("tx", "rx") and e["seq"] == 4095:
                ctx.count("sequence_wraps")
    ctx.report(ctx.validate("LinkTrace", runs, consts=TRACE_CONSTS), CLAUSES[ctx.pid])
