"""Two real ports connected back to back (entry run), or one real port against a scripted peer (entry peer)."""
import random
import cocotb
from cocotb.queue import Queue
from cocotb.triggers import Timer, Event
from cocotb.utils import get_sim_time
from cocotbext.pcie.core.port import SimPort
from common import *

POSTED = ["MEM_WRITE", "MEM_WRITE_64", "MSG_TO_RC", "MSG_DATA_TO_RC", "MSG_BCAST"]
NONPOSTED = ["MEM_READ", "MEM_READ_64", "IO_READ", "IO_WRITE", "CFG_READ_0", "CFG_WRITE_1", "FETCH_ADD", "SWAP_64", "CAS", "MEM_READ_LOCKED"]
COMPL = ["CPL", "CPL_DATA", "CPL_LOCKED_DATA", "CPL_LOCKED"]
NPDATA = {"IO_WRITE": 4, "CFG_WRITE_1": 4, "FETCH_ADD": 4, "SWAP_64": 8, "CAS": 8}


def tid(t):
    return (int(t.requester_id) << 10) | (t.tag & 0x3ff)


def mktlp(rng, c, ident, nbytes=None, maxb=4096, plain=False):
    t = Tlp()
    kind = rng.choice({"P": POSTED, "NP": NONPOSTED, "CPL": COMPL}[c])
    if nbytes is not None:
        if c == "P":
            kind = rng.choice(["MEM_WRITE", "MEM_WRITE_64", "MSG_DATA_TO_RC"]) if nbytes else "MSG_TO_RC"
        elif c == "CPL":
            kind = rng.choice(["CPL_DATA", "CPL_LOCKED_DATA"]) if nbytes else rng.choice(["CPL", "CPL_LOCKED"])
        else:
            kind = {0: rng.choice(["MEM_READ", "MEM_READ_64", "CFG_READ_0"]), 4: rng.choice(["IO_WRITE", "FETCH_ADD"]), 8: "CAS"}[nbytes]
    t.fmt_type = TlpType[kind]
    t.requester_id = PcieId.from_int(ident >> 10)
    t.tag = ident & 0x3ff
    if t.has_data():
        if nbytes is None:
            nbytes = NPDATA.get(kind)
        if nbytes is None:
            nbytes = 4 * rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 64, 255, 256, 1023, 1024])
            nbytes = min(nbytes, maxb)
        t.set_data(bytes(rng.getrandbits(8) for _ in range(nbytes)))
    else:
        t.length = rng.choice([1, 2, 32, 1024]) if c == "NP" else 0
    if not plain:
        t.tc = TlpTc(rng.randrange(8))
        t.attr = TlpAttr(rng.randrange(8))
        t.at = TlpAt(rng.randrange(3))
        for f in ("ln", "th", "td", "ep", "bcm"):
            setattr(t, f, rng.random() < .3)
        t.status = rng.choice(list(CplStatus))
        t.completer_id = PcieId.from_int(rng.getrandbits(16))
        t.byte_count = rng.randrange(1, 4097)
        t.first_be, t.last_be = rng.randrange(16), rng.randrange(16)
        t.lower_address = rng.randrange(128)
        t.address = rng.getrandbits(64) & ~3
        t.ph = rng.randrange(4)
    return t


class Tap(SimPort):
    def __init__(self, idx, log, fc_init, scn, env):
        self.idx, self._elog, self._env = idx, log, env
        self._up = scn.get("up", [0, 0])[idx]
        self._slow = scn.get("slow", 0)
        self._drop = scn.get("drop", 0)
        self._drop_until = scn.get("drop_until", 0)
        self._drng = random.Random(scn.get("seed", 0) * 2 + idx)
        super().__init__(fc_init=fc_init)
        sp, w = scn.get("speed", 3), scn.get("width", 4)
        if sp:
            self.max_link_speed = sp[idx] if isinstance(sp, list) else sp
            self.max_link_width = w[idx] if isinstance(w, list) else w

    async def handle_tx(self, pkt):
        while self._elog.now() < self._up:
            await Timer(max(self._up - self._elog.now(), 1), "ns")
        if isinstance(pkt, Dllp):
            ev = dllp_ev(pkt)
            self._elog("txd", p=self.idx, t=self._elog.now(), **ev)
            if self._slow and ev["k"] in ("I1", "I2"):
                await Timer(self._slow, "ns")      # scripted runs stay in initialisation for long
        else:
            self._elog("tx", p=self.idx, t=self._elog.now(), c=cls_of(pkt), n=len(pkt.data), seq=pkt.seq, id=tid(pkt))
        await super().handle_tx(pkt)

    async def ext_recv(self, pkt):
        now = self._elog.now()
        if isinstance(pkt, Dllp):
            if now < self._up or (now < self._drop_until and self._drng.random() < self._drop):
                return
            self._elog("rxd", p=self.idx, t=now, **dllp_ev(pkt))
            await super().ext_recv(pkt)
            if DK.get(pkt.type, ("",))[0] in ("ACK", "NAK"):
                try:
                    n = self.retry_buffer.qsize()
                except Exception:
                    n = -1
                self._elog("rb", p=self.idx, n=n)
        else:
            self._env["wire"][self.idx][tid(pkt)] = snap(pkt)
            self._elog("rx", p=self.idx, t=now, c=cls_of(pkt), n=len(pkt.data), seq=pkt.seq, id=tid(pkt))
            await super().ext_recv(pkt)


def header(log, scn, ports, judge=(0, 1)):
    lat, ack = [], []
    for p in ports:
        wire = (4096 + 28) * p.symbol_period * 1e9     # longest TLP ahead of the DLLP
        base = p.max_latency_timer_steps / 1000
        dl = 8 * p.symbol_period * 1e9
        d = int(base + wire + 6 * dl + 20 + getattr(p, "_slow", 0))
        lat.append(d)
        ack.append(d)
    log("link", init=scn["fc"], judge=list(judge), lat=lat, acklat=ack)


async def run(dut, scn, log):
    rng = scn["rng"]
    env = {"wire": [{}, {}], "orig": [{}, {}]}
    ports = []
    for i in (0, 1):
        flat = [x for pair in scn["fc"][i] for x in pair]
        ports.append(Tap(i, log, [flat] + [[0] * 6] * 7, scn, env))
    rxq = [Queue(), Queue()]

    def handler(i):
        async def h(t):
            o = env["orig"][1 - i].get(tid(t))
            log("dlv", p=i, t=log.now(), id=tid(t), same=bool(o == snap(t)))
            rxq[i].put_nowait(t)
            bp = scn.get("hdelay")
            if bp:
                await Timer(rng.choice(bp), "ns")
        return h

    for i in (0, 1):
        ports[i].rx_handler = handler(i)
    ports[0].connect(ports[1])
    header(log, scn, ports)
    pend = []
    hold = {}

    async def releaser(i):
        rel = scn.get("rel", {"mode": "delay", "d": [0, 50]})
        while True:
            t = await rxq[i].get()
            c = cls_of(t)
            if rel["mode"] == "now":
                await dorel(i, t)
            elif rel["mode"] == "hold" and c in rel["classes"] and log.now() < rel["until"]:
                hold.setdefault(i, []).append(t)
            else:
                async def later(t=t):
                    d = rng.choice(rel.get("d", [0, 50]))
                    if d:
                        await Timer(d, "ns")
                    await dorel(i, t)
                pend.append(cocotb.start_soon(later()))

    async def dorel(i, t):
        log("rel", p=i, t=log.now(), id=tid(t))
        t.release_fc()
        if scn.get("double") and rng.random() < .5:
            log("rel", p=i, t=log.now(), id=tid(t))
            t.release_fc()

    nid = [1, 1]

    async def sender(i, c, spec):
        for k in range(spec["n"]):
            g = spec.get("gap", [0])
            d = rng.choice(g)
            if d:
                await Timer(d, "ns")
            nb = spec.get("bytes")
            nb = rng.choice(nb) if nb else None
            ident = nid[i]
            nid[i] += 1
            t = mktlp(rng, c, ident, nb, spec.get("maxb", 4096))
            env["orig"][i][ident] = snap(t)
            log("sub", p=i, c=c, n=len(t.data), id=ident)
            await ports[i].send(t)

    for i in (0, 1):
        cocotb.start_soon(releaser(i))
    tasks = []
    for i in (0, 1):
        for c in ("P", "NP", "CPL"):
            s = scn["send"][i].get(c)
            if s:
                tasks.append(cocotb.start_soon(sender(i, c, s)))

    async def quiet(ns, limit):
        # wait until the link carried no TLP and delivered nothing for ns
        last, t = None, 0
        start = log.now()
        while log.now() - start < limit:
            cur = (nid[0], nid[1], ports[0].next_transmit_seq if 0 else env_count())
            if cur == last:
                if log.now() - t >= ns:
                    return
            else:
                last, t = cur, log.now()
            await Timer(5000, "ns")

    def env_count():
        return len(env["wire"][0]), len(env["wire"][1]), rxq[0].qsize(), rxq[1].qsize()

    if scn.get("rel", {}).get("mode") == "hold":
        while log.now() < scn["rel"]["until"]:
            await Timer(5000, "ns")
        log("idle", t=log.now())
        for i in list(hold):
            for t in rng.sample(hold[i], len(hold[i])):
                await dorel(i, t)
            hold[i] = []
    await quiet(90000, scn.get("limit", 60_000_000))
    log("idle", t=log.now())
    log("end", held=False)


class Peer(SimPort):
    """Scripted peer: swallows what its base class would transmit; records what arrives."""
    def __init__(self, env):
        self._env = env
        super().__init__(fc_init=[[0] * 6] * 8)
        self.max_link_speed, self.max_link_width = 3, 4

    async def handle_tx(self, pkt):
        await Timer(1, "sec")

    async def ext_recv(self, pkt):
        if not isinstance(pkt, Dllp):
            e = self._env
            e["lasttx"] = pkt.seq
            c = cls_of(pkt)
            e["cons"][c][0] += 1
            e["cons"][c][1] += (len(pkt.data) + 15) // 16


async def peer(dut, scn, log):
    rng = scn["rng"]
    script = scn["script"]
    ini = script[0]
    CL = ("P", "NP", "CPL")
    env = {"wire": [{}, {}], "orig": [{}, {}], "lasttx": 4095, "cons": {c: [0, 0] for c in CL}}
    dinit, pinit = dict(zip(CL, ini["dut"])), dict(zip(CL, ini["peer"]))
    flat = [x for pair in ini["dut"] for x in pair]
    D = Tap(0, log, [flat] + [[0] * 6] * 7, {"speed": 3, "width": 4, "slow": 300}, env)
    P = Peer(env)
    buf = []

    async def handler(t):
        log("dlv", p=0, t=log.now(), id=tid(t), same=bool(env["orig"][1].get(tid(t)) == snap(t)))
        buf.append(t)
    D.rx_handler = handler
    D.connect(P)
    header(log, {"fc": [ini["dut"], ini["peer"]]}, (D, D), judge=[0])
    grant = {c: list(pinit[c]) for c in CL}
    state = {"next": 0, "ident": [1, 1]}
    past = []
    queues = {c: Queue() for c in CL}
    seen = {"got": set(), "fi2": False}

    async def app(c):
        while True:
            t = await queues[c].get()
            await D.send(t)
    for c in CL:
        cocotb.start_soon(app(c))

    def submit(c, s):
        i = state["ident"][0]
        state["ident"][0] += 1
        nb = 0 if s == 0 else (4 if s == 1 and c == "NP" else 16 * s - 4 * rng.randrange(4))
        t = mktlp(rng, c, i, nb)
        log("sub", p=0, c=c, n=len(t.data), id=i)
        queues[c].put_nowait(t)

    def release(t, twice=False):
        for _ in range(2 if twice else 1):
            log("rel", p=0, t=log.now(), id=tid(t))
            t.release_fc()

    async def fcd(k, c, h, d):
        x = Dllp()
        x.type = KD[(k, c)]
        x.hdr_fc, x.data_fc = h, d
        await D.ext_recv(x)
        if k in ("I1", "I2") and len(seen["got"]) < 3:
            seen["got"].add(c)
        elif len(seen["got"]) == 3 and k in ("I2", "U"):
            seen["fi2"] = True

    async def update(c, h, d):
        # a peer only ever grants what it has received, so never more than half the counter range ahead
        if pinit[c][0] and grant[c][0] + h - env["cons"][c][0] <= 2047:
            grant[c][0] += h
        if pinit[c][1] and grant[c][1] + d - env["cons"][c][1] <= 32767:
            grant[c][1] += d
        await fcd("U", c, grant[c][0] % 4096, grant[c][1] % 65536)

    async def peer_tlp(c, s, seq=None):
        i = state["ident"][1]
        state["ident"][1] += 1
        nb = 0 if s == 0 else (4 if s == 1 and c == "NP" else 16 * s - 4 * rng.randrange(4))
        t = mktlp(rng, c, i, nb)
        env["orig"][1][i] = snap(t)
        if seq is None:
            t.seq = state["next"]
            state["next"] = (state["next"] + 1) % 4096
            past.append(t)
            if len(past) > 2100:
                del past[0]
        else:
            t.seq = seq
        await D.ext_recv(t)

    async def ack(seq):
        x = Dllp()
        x.type = DllpType.ACK
        x.seq = seq % 4096
        await D.ext_recv(x)

    warm = scn.get("warm", 0)
    for a in script[1:]:
        k = a["a"]
        if k == "fc":
            await fcd(a["k"], a["c"], a["h"], a["d"])
        elif k == "upd":
            await update(a["c"], a["h"], a["d"])
        elif k == "sub":
            submit(a["c"], a["s"])
        elif k == "tlp":
            await peer_tlp(a["c"], a["s"])
        elif k == "dup":
            if a["k"] <= len(past):
                await D.ext_recv(past[-a["k"]])
        elif k == "gap":
            await peer_tlp("P", 0, (state["next"] + a["k"]) % 4096)
        elif k == "ack":
            await ack(env["lasttx"] - a["k"])
        elif k == "badack":
            await ack(env["lasttx"] + (a["k"] if a["fut"] else -a["k"] - 1))
        elif k == "rel":
            await Timer(1, "ns")
            if buf:
                release(buf.pop(min(a["i"] - 1, len(buf) - 1)), a["twice"])
        if a.get("w"):
            await Timer(a["w"], "ns")
        if warm and seen["fi2"]:
            # run the counters close to their wrap points before the rest of the behaviour
            await Timer(100, "us")
            while buf:
                release(buf.pop(0))
            for n in range(warm):
                for c in CL:
                    submit(c, 0)
                    await update(c, 1, 0)
                    await peer_tlp(c, 0)
                if n % scn.get("every", 16) == scn.get("every", 16) - 1:
                    await Timer(40, "ns")
                    while buf:
                        release(buf.pop(0))
                    await ack(env["lasttx"])
                else:
                    await Timer(60, "ns")
                    while buf:
                        release(buf.pop(0))
            warm = 0
    # wind down: finish the handshake, give back everything, grant generously
    for k in ("I1", "I2"):
        for c in CL:
            await fcd(k, c, *pinit[c])
    await Timer(60, "us")
    log("idle", t=log.now())
    for t in list(buf):
        release(t)
    buf.clear()
    for _ in range(400):
        for c in CL:
            if pinit[c][0]:
                grant[c][0] = max(grant[c][0], min(env["cons"][c][0] + 1000, grant[c][0] + 1000))
            if pinit[c][1]:
                grant[c][1] = max(grant[c][1], min(env["cons"][c][1] + 20000, grant[c][1] + 20000))
            await update(c, 0, 0)
        await Timer(3, "us")
        if all(q.empty() for q in queues.values()):
            break
    await ack(env["lasttx"])
    await Timer(100, "us")
    log("idle", t=log.now())
    log("end", held=True)
