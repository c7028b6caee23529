"""Stratix 10 and P-Tile stream interfaces: a source of the library (or beats built here) against a sink of the library, recorded clock by clock."""
import itertools, random
import cocotb
from cocotb.clock import Clock
from cocotb.triggers import RisingEdge, Timer
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc
from cocotbext.pcie.core.utils import PcieId
from cocotbext.pcie.intel.s10 import interface as S
from cocotbext.pcie.intel.ptile import interface as P

CLS = dict(s=(S.S10PcieSource, S.S10PcieSink, S.S10PcieFrame, dict(tx=S.S10TxBus, rx=S.S10RxBus)),
           t=(P.PTilePcieSource, P.PTilePcieSink, P.PTilePcieFrame, dict(tx=P.PTileTxBus, rx=P.PTileRxBus)))
DATA = ["MEM_WRITE", "MEM_WRITE_64", "IO_WRITE", "CPL_DATA", "CFG_WRITE_0"]
NONE = ["MEM_READ", "MEM_READ_64", "IO_READ", "CPL", "CFG_READ_0", "CFG_READ_1"]
PAR = dict(s="parity", t="data_par")


def limbs(v, n):
    return [v >> 16 * k & 0xffff for k in reversed(range(n))]


def dw(v):
    return [v >> 16, v & 0xffff]


def make_tlp(n, g):
    """a TLP with n payload dwords"""
    t = Tlp()
    t.fmt_type = TlpType[g.choice(DATA if n else NONE)]
    if t.fmt_type.name.startswith(("IO_WRITE", "CFG_WRITE")) and n != 1:
        t.fmt_type = TlpType.MEM_WRITE_64
    t.tc, t.attr = TlpTc(g.randrange(8)), TlpAttr(g.randrange(8))
    t.requester_id, t.completer_id, t.tag = PcieId(g.randrange(256), g.randrange(32), g.randrange(8)), PcieId(g.randrange(256), g.randrange(32), g.randrange(8)), g.randrange(256)
    t.address = g.getrandbits(64 if "64" in t.fmt_type.name else 32) & ~3
    t.first_be, t.last_be = g.randrange(16), g.randrange(16)
    t.register_number = g.randrange(1024)
    t.byte_count, t.lower_address = g.randrange(1, 4097), g.randrange(128)
    t.length = n or g.randrange(1, 1025)
    t.data = bytearray(g.randbytes(4 * n))
    return t


def ev(f, fam):
    o = dict(d=[dw(x) for x in f.data], p=list(f.parity), bar=int(f.bar_range), fn=int(f.func_num), vf=-1 if f.vf_num is None else int(f.vf_num), err=int(f.err), ab=0, h=[], hp=0, x=[], xp=0)
    if fam == "t":
        o.update(ab=int(f.tlp_abort), h=limbs(f.hdr, 8), hp=int(f.hdr_par), x=limbs(f.tlp_prfx, 2), xp=int(f.tlp_prfx_par))
    return o


def make_frame(d, fam, cls, g):
    """the frame, what it was made from, and the events' fields"""
    t = make_tlp(d["n"], g)
    f = cls.from_tlp(t) if g.random() < .5 else cls(t)
    e = ev(f, fam)
    h = bytes(t.pack_header())
    e.update(tlp=1, hdr=[dw(int.from_bytes(h[k:k + 4], "big")) for k in range(0, len(h), 4)], pay=[dw(int.from_bytes(t.data[k:k + 4], "little")) for k in range(0, len(t.data), 4)])
    if d.get("plain"):
        return t, e
    e["tlp"] = 0
    if d.get("side"):
        f.bar_range, f.func_num, f.vf_num, f.err = g.randrange(8), g.randrange(4 if fam == "s" else 8), g.choice([None, None, 0, g.randrange(2048)]), g.randrange(2)
        if fam == "t":
            f.tlp_abort, f.tlp_prfx = g.randrange(2), g.choice([0, g.getrandbits(32)])
            f.update_parity()
    if d.get("par"):
        f.parity = [g.getrandbits(4) for _ in f.data]
        if fam == "t":
            f.hdr_par, f.tlp_prfx_par = g.getrandbits(16), g.getrandbits(4)
    return f, dict(e, **ev(f, fam))


class Bits:
    """fields of a beat, per segment"""
    def __init__(self):
        self.v = {}

    def put(self, name, pos, width, val):
        self.v[name] = self.v.get(name, 0) & ~(((1 << width) - 1) << pos) | (val & (1 << width) - 1) << pos


def encode(frames, c, bus, g, tight):
    """beats for a list of frames: any legal placement, with arbitrary values where nothing is defined"""
    fam, n, lanes = c["fam"], c["n"], c["lanes"]
    fw = 2 if fam == "s" else 3
    out, q, cur, off = [], list(frames), None, 0
    while q or cur is not None:
        b = Bits()
        for s in bus._signals:
            if s not in ("valid", "ready", "sop", "eop"):
                b.v[s] = g.getrandbits(len(bus._signals[s]))
        for s in ("valid", "sop", "eop"):
            b.v[s] = 0
        any_ = False
        for k in range(n):
            if cur is None and not q:
                break
            if g.random() < tight:      # this segment stays empty
                b.put("sop", k, 1, g.randrange(2))
                b.put("eop", k, 1, g.randrange(2))
                continue
            any_ = True
            b.put("valid", k, 1, 1)
            if cur is None:
                cur, off = q.pop(0), 0
                b.put("sop", k, 1, 1)
                for s, w, v in (("bar_range", 3, cur.bar_range), ("func_num", fw, cur.func_num), ("vf_active", 1, cur.vf_num is not None), ("vf_num", 11, cur.vf_num or 0), ("err", 1, cur.err)):
                    b.put(s, k * w, w, int(v))
                if fam == "t":
                    for s, w, v in (("hdr", 128, cur.hdr), ("hdr_par", 16, cur.hdr_par), ("tlp_prfx", 32, cur.tlp_prfx), ("tlp_prfx_par", 4, cur.tlp_prfx_par), ("tlp_abort", 1, cur.tlp_abort)):
                        b.put(s, k * w, w, int(v))
            m = min(lanes, len(cur.data) - off)
            for i in range(m):
                b.put("data", 32 * (k * lanes + i), 32, cur.data[off + i])
                b.put(PAR[fam], 4 * (k * lanes + i), 4, cur.parity[off + i])
            off += m
            b.put("empty", k * ((lanes - 1).bit_length()), (lanes - 1).bit_length(), lanes - m)
            if off == len(cur.data):
                b.put("eop", k, 1, 1)
                cur = None
        if any_:
            out.append({s: v for s, v in b.v.items() if s in bus._signals})
    return out


async def run(dut, scn, log):
    fam, w, n, d, L = scn["fam"], scn["w"], scn["n"], scn["dir"], scn["L"]
    g = random.Random(scn["seed"])
    cocotb.start_soon(Clock(dut.clk, 4, "ns").start())
    src_c, snk_c, frame_c, buses = CLS[fam]
    bus = buses[d].from_prefix(dut, f"{fam}{w}x{n}{'' if scn['opt'] else 'n'}_{d}")
    for s in bus._signals:
        bus._signals[s].setimmediatevalue(0)
    sig = {s: h for s, h in bus._signals.items()}
    lanes = w // n // 32
    has = sorted({"par" if s == PAR[fam] else s for s in sig})
    dut.rst.setimmediatevalue(1 if scn.get("rst") else 0)
    rst = dut.rst if scn.get("rst") else None
    raw = scn.get("raw")
    snk = snk_c(bus, dut.clk, rst, ready_latency=L)
    if scn.get("limit") is not None:
        snk.queue_occupancy_limit_frames = scn["limit"]
    src = None if raw else src_c(bus, dut.clk, rst, ready_latency=L)
    log("cfg", fam=fam, w=w, n=n, dir=d, L=L, lanes=lanes, has=has, limit=scn.get("limit") or 0)
    frames = [make_frame(x, fam, frame_c, g) for x in scn["frames"]]
    state = dict(idle=0, recv=0)
    fw = 2 if fam == "s" else 3
    if scn["sp"] and src:
        src.set_pause_generator(itertools.cycle(scn["sp"]))
    if scn["kp"]:
        snk.set_pause_generator(itertools.cycle(scn["kp"]))

    async def monitor():
        edge = RisingEdge(dut.clk)
        while True:
            await edge
            r, v = int(sig["ready"].value), int(sig["valid"].value)
            segs = []
            if v:
                x = {s: int(h.value) for s, h in sig.items()}
                for k in range(n):
                    if not v >> k & 1:
                        continue

                    def f(s, wd):
                        return x.get(s, 0) >> k * wd & (1 << wd) - 1
                    da, pa = f("data", 32 * lanes), f(PAR[fam], 4 * lanes)
                    segs.append(dict(i=k, sop=f("sop", 1), eop=f("eop", 1), emp=f("empty", (lanes - 1).bit_length()), d=[dw(da >> 32 * j & 0xffffffff) for j in range(lanes)], p=[pa >> 4 * j & 15 for j in range(lanes)],
                                     bar=f("bar_range", 3), fn=f("func_num", fw), vfa=f("vf_active", 1), vn=f("vf_num", 11), err=f("err", 1),
                                     h=limbs(f("hdr", 128), 8) if fam == "t" else [], hp=f("hdr_par", 16), x=limbs(f("tlp_prfx", 32), 2) if fam == "t" else [], xp=f("tlp_prfx_par", 4), ab=f("tlp_abort", 1)))
            state["idle"] = 0 if v else state["idle"] + 1
            log("clk", r=r, rst=int(dut.rst.value), v=segs)

    async def reader():
        while True:
            f = await snk.recv() if g.random() < .7 or snk.empty() else snk.recv_nowait()
            state["recv"] += 1
            state["idle"] = 0
            await Timer(1, "ns")
            back = []
            if not scn.get("odd"):
                t = f.to_tlp()
                b = bytes(t.pack_header())
                back = [dw(int.from_bytes(b[k:k + 4], "big")) for k in range(0, len(b), 4)] + [dw(int.from_bytes(t.data[k:k + 4], "little")) for k in range(0, len(t.data), 4)]
            log("recv", back=back, ok=int(bool(f.check_parity())), **ev(f, fam))
            for _ in range(g.choice([0, 0, 1, 3, 9]) * scn.get("slow", 0)):
                await RisingEdge(dut.clk)

    async def driver():
        pg = itertools.cycle(scn["sp"] or [0])
        fs = [f if not isinstance(f, Tlp) else frame_c(f) for f, e in frames]
        for f, e in frames:
            log("send", **e)
        hist = [0] * max(L - 1, 0)
        q = encode(fs, dict(fam=fam, n=n, lanes=lanes), bus, g, scn.get("tight", .2))
        held = False
        while q or held:
            await RisingEdge(dut.clk)
            r = int(sig["ready"].value)
            if L == 0 and held and not r:
                continue
            held = False
            hist.append(r)
            may = hist.pop(0) if L > 0 else 1
            if rst is not None and int(dut.rst.value):
                may = 0
            if q and may and not next(pg):
                for s, v in q.pop(0).items():
                    sig[s].value = v
                held = L == 0
            else:
                for s in sig:
                    if s != "ready":
                        sig[s].value = 0 if s == "valid" else g.getrandbits(len(sig[s]))
        await RisingEdge(dut.clk)
        sig["valid"].value = 0

    cocotb.start_soon(monitor())
    cocotb.start_soon(reader())

    async def reset():
        for _ in range(scn["rst"]):
            await RisingEdge(dut.clk)
        dut.rst.value = 0
    if rst is not None:
        cocotb.start_soon(reset())
    await RisingEdge(dut.clk)
    if raw:
        await driver()
    else:
        for x, (f, e) in zip(scn["frames"], frames):
            for _ in range(x.get("gap", 0)):
                await RisingEdge(dut.clk)
            if x.get("nowait") and not src.full():
                log("send", **e)
                src.send_nowait(f)
            else:
                log("send", **e)
                await src.send(f)
            if x.get("reuse") and not isinstance(f, Tlp) and f.data:
                # the source owns a copy
                f.data[-1] ^= 1
                f.parity[-1] ^= 1
    if scn.get("resume", 1) and src:
        src.clear_pause_generator()
        src.pause = False
    snk.clear_pause_generator()
    snk.pause = False
    t = 0
    while (state["idle"] < 2 * L + 12 + 40 * scn.get("slow", 0) or state["recv"] < len(frames)) and t < 6000:
        await RisingEdge(dut.clk)
        t += 1
        if state["idle"] > 400:
            break
    log("idle", src=int(src is None or src.idle()), snk=int(snk.empty()))
    log("end")
    sig["valid"].value = 0
    await Timer(1, "ns")
