"""UltraScale stream interfaces: a source of the library (or beats built here) against a sink of the library, recorded clock by clock."""
import itertools, random
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer
from cocotbext.axi import AxiStreamBus
from cocotbext.pcie.xilinx.us import interface as I

SRC = dict(rq=I.RqSource, rc=I.RcSource, cq=I.CqSource, cc=I.CcSource)
SNK = dict(rq=I.RqSink, rc=I.RcSink, cq=I.CqSink, cc=I.CcSink)
# sideband positions for beats built here
LAY = {("rq", 1): dict(fbe=0, lbe=8, sop=20, sopp=22, eop=26, eopp=28, disc=36, seq=61, par=73), ("rq", 0): dict(fbe=0, lbe=4, disc=11, seq=24, par=28),
       ("rc", 1): dict(be=0, sop=64, sopp=68, eop=76, eopp=80, disc=96, par=97), ("rc", 0): dict(be=0, sop=32, eop=34, eopp=35, disc=42, par=43),
       ("cq", 1): dict(fbe=0, lbe=8, be=16, sop=80, sopp=82, eop=86, eopp=88, disc=96, par=119), ("cq", 0): dict(fbe=0, lbe=4, be=8, sop=40, disc=41, par=53),
       ("cc", 1): dict(sop=0, sopp=2, eop=6, eopp=8, disc=16, par=17), ("cc", 0): dict(disc=0, par=1)}


def frame(d, g, i):
    f = I.UsPcieFrame()
    f.data = [g.getrandbits(32) if g.random() < .9 else g.choice([0, 0xffffffff]) for _ in range(d["n"])]
    f.update_parity()
    if i in ("rc", "cq"):
        f.byte_en = [g.getrandbits(4) for _ in f.data]
    if i in ("rq", "cq"):
        f.first_be, f.last_be = g.getrandbits(4), g.getrandbits(4)
    f.discontinue = bool(d.get("disc"))
    if i == "rq":
        f.seq_num = g.getrandbits(6)
    return f


def ev(f):
    return dict(d=[[x >> 16, x & 0xffff] for x in f.data], be=list(f.byte_en), par=list(f.parity), fbe=f.first_be, lbe=f.last_be, disc=int(bool(f.discontinue)), seq=f.seq_num)


def encode(frames, i, w, uw, segs, g, tight):
    """beats for a list of frames, with arbitrary values where the interface does not define any"""
    lay, big, n = LAY[i, int(w == 512)], w == 512, w // 32
    sw = n // segs
    beats, q = [], list(frames)
    cur, off = None, 0
    while q or cur is not None:
        data = [g.getrandbits(32) for _ in range(n)]
        par = [g.getrandbits(4) for _ in range(n)]
        be = [g.getrandbits(4) for _ in range(n)]
        u, keep, last, ns, ne, pos = 0, 0, 0, 0, 0, 0
        while pos < n:
            if cur is None:
                if not q or (pos and g.random() < tight):
                    break
                cur, off = q.pop(0), 0
                if "sop" in lay:
                    u |= 1 << lay["sop"] + ns
                    if "sopp" in lay:
                        u |= pos // 4 << lay["sopp"] + 2 * ns
                if "fbe" in lay:
                    u |= cur.first_be << lay["fbe"] + 4 * ns | cur.last_be << lay["lbe"] + 4 * ns
                if "seq" in lay:
                    u |= cur.seq_num << lay["seq"] + 6 * ns if big else (cur.seq_num & 15) << lay["seq"] | (cur.seq_num >> 4 << 60 if uw == 62 else 0)
                ns += 1
            lane = pos
            while lane < n and off < len(cur.data):
                data[lane], par[lane] = cur.data[off], cur.parity[off]
                if cur.byte_en:
                    be[lane] = cur.byte_en[off]
                keep |= 1 << lane
                lane, off = lane + 1, off + 1
            if cur.discontinue:
                u |= 1 << lay["disc"]
            if off < len(cur.data):
                break
            last = 1
            if "eop" in lay:
                if big:
                    u |= 1 << lay["eop"] + ne | lane - 1 << lay["eopp"] + 4 * ne
                else:
                    u |= 1 << lay["eop"] + 4 * ne | lane - 1 << lay["eopp"] + 4 * ne
            ne += 1
            cur = None
            pos = (lane + sw - 1) // sw * sw
            if segs == 1:
                break
        if segs > 1:
            last = g.randrange(2)
            keep = g.getrandbits(n)
        for k in range(n):
            u |= par[k] << lay["par"] + 4 * k
            if "be" in lay:
                u |= be[k] << lay["be"] + 4 * k
        beats.append((sum(x << 32 * k for k, x in enumerate(data)), keep, last, u))
    return beats


async def run(dut, scn, log):
    i, w, uw, segs = scn["i"], scn["w"], scn["uw"], scn["segs"]
    g = random.Random(scn["seed"])
    cocotb.start_soon(Clock(dut.clk, 4, "ns").start())
    bus = AxiStreamBus.from_prefix(dut, f"{i}{w}_{uw}")
    for s in ("tvalid", "tready", "tlast", "tdata", "tuser", "tkeep"):
        getattr(bus, s).setimmediatevalue(0)
    raw = scn.get("raw")
    snk = SNK[i](bus, dut.clk, None, segs)
    if scn.get("limit") is not None:
        snk.queue_occupancy_limit_frames = scn["limit"]
    src = None if raw else SRC[i](bus, dut.clk, None, segs)
    log("cfg", i=i, w=w, uw=uw, segs=segs)
    frames = [frame(d, g, i) for d in scn["frames"]]
    state = dict(idle=0, recv=0)

    def pat(p):
        return itertools.cycle(p)
    if scn["sp"] and src:
        src.set_pause_generator(pat(scn["sp"]))
    if scn["kp"]:
        snk.set_pause_generator(pat(scn["kp"]))

    async def monitor():
        edge = RisingEdge(dut.clk)
        lastv = 1
        while True:
            await edge
            v, r = int(bus.tvalid.value), int(bus.tready.value)
            if not v:
                state["idle"] += 1
                if lastv:
                    log("clk", v=0, r=r)
            else:
                state["idle"] = 0
                d, u = int(bus.tdata.value), int(bus.tuser.value)
                log("clk", v=1, r=r, d=[[d >> 32 * k + 16 & 0xffff, d >> 32 * k & 0xffff] for k in range(w // 32)], k=int(bus.tkeep.value), l=int(bus.tlast.value),
                    u=[u >> 16 * k & 0xffff for k in range(uw // 16 + 1)])
            lastv = v

    async def reader():
        n = 0
        while True:
            f = await snk.recv()
            state["recv"] += 1
            state["idle"] = 0
            await Timer(1, "ns")
            log("recv", **ev(f))
            n += 1
            if scn.get("slow"):
                for _ in range(g.choice([0, 0, 1, 3, 9]) * scn["slow"]):
                    await RisingEdge(dut.clk)

    async def driver():
        pg = pat(scn["sp"] or [0])
        for f in frames:
            log("send", **ev(f))
        for d, k, la, u in encode(frames, i, w, uw, segs, g, scn.get("tight", .3)):
            while next(pg):
                bus.tvalid.value = 0
                bus.tdata.value = g.getrandbits(w)
                bus.tuser.value = g.getrandbits(uw)
                bus.tkeep.value = g.getrandbits(w // 32)
                bus.tlast.value = g.getrandbits(1)
                await RisingEdge(dut.clk)
            bus.tdata.value, bus.tkeep.value, bus.tlast.value, bus.tuser.value, bus.tvalid.value = d, k, la, u, 1
            while True:
                await RisingEdge(dut.clk)
                if int(bus.tready.value) and int(bus.tvalid.value):
                    break
        bus.tvalid.value = 0

    cocotb.start_soon(monitor())
    cocotb.start_soon(reader())
    await RisingEdge(dut.clk)
    if raw:
        await driver()
    else:
        for d, f in zip(scn["frames"], frames):
            for _ in range(d.get("gap", 0)):
                await RisingEdge(dut.clk)
            log("send", **ev(f))
            if d.get("nowait"):
                src.send_nowait(f)
            else:
                await src.send(f)
            if d.get("reuse"):
                # the source owns a copy
                f.data[0] ^= 1
                f.parity[0] ^= 1
    # both sides run on; everything handed over has to come out
    if scn.get("resume", 1) and src:
        src.clear_pause_generator()
        src.pause = False
    snk.clear_pause_generator()
    snk.pause = False
    t = 0
    while (state["idle"] < 12 + 40 * scn.get("slow", 0) or state["recv"] < len(frames)) and t < 3000:
        await RisingEdge(dut.clk)
        t += 1
        if state["idle"] > 400:
            break
    log("idle", src=int(src is None or src.idle()), snk=int(snk.empty()))
    log("end")
    bus.tvalid.value = 0
    await Timer(1, "ns")
