"""UltraScale / UltraScale+ device models between a raw link partner and user logic built from the library's stream sources and sinks.

Operations of a scenario run in order; everything observable is logged: requests and completions handed to the device on
either side, TLPs leaving it on either side, and the status signals."""
import inspect, itertools, random
import cocotb
from cocotb.triggers import NullTrigger, RisingEdge, Timer, Event
from cocotb.queue import Queue
from cocotbext.axi import AxiStreamBus
from cocotbext.pcie.core.port import SimPort
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpAt, TlpTc, CplStatus
from cocotbext.pcie.core.utils import PcieId
from cocotbext.pcie.xilinx.us import UltraScalePcieDevice, UltraScalePlusPcieDevice
from cocotbext.pcie.xilinx.us.interface import RqSource, RcSink, CqSink, CcSource
from cocotbext.pcie.xilinx.us.tlp import Tlp_us
from common import cls_of

FREQ = {("u", 64): (3, 2, 250e6), ("u", 128): (3, 4, 250e6), ("u", 256): (3, 8, 250e6),
        ("p", 64): (3, 2, 250e6), ("p", 128): (3, 4, 250e6), ("p", 256): (3, 8, 250e6), ("p", 512): (3, 16, 250e6)}
PCAP = {"u": 0xc0, "p": 0x70}


def b8(v):
    return [(v >> (56 - 8 * i)) & 255 for i in range(8)]


def hdr(t):
    o = dict(t=t.fmt_type.name, c=cls_of(t), tag=t.tag, rid=int(t.requester_id), cid=int(t.completer_id), tc=int(t.tc), attr=int(t.attr), at=int(t.at), ep=int(t.ep),
             n=t.length, fbe=t.first_be, lbe=t.last_be, a=b8(t.address), st=int(t.status), bc=t.byte_count, la=t.lower_address, d=list(t.data))
    return o


def us(t):
    o = hdr(t)
    o.update(bar=t.bar_id, ap=t.bar_aperture, err=int(t.error_code), rqc=int(bool(t.request_completed)), seq=t.seq_num, disc=int(t.discontinue), rie=int(bool(t.requester_id_enable)), cie=int(bool(t.completer_id_enable)))
    return o


class Env:
    def __init__(self, dut, scn, log):
        self.dut, self.scn, self.log = dut, scn, log
        self.g = random.Random(scn["seed"])
        self.fam, self.w = scn["fam"], scn["w"]
        self.act = 0            # activity counter
        self.seen = []          # requests the link partner has got and not finished
        self.cqs = []           # non-posted requests the user side has got and not completed
        self.busy_tags = set()
        self.tag_free = Event()
        self.hold = self.cqhold = False
        self.wakeup, self.cqwake = Event(), Event()
        self.setup = True
        self.cfgc = {}
        self.paused = dict(rc=0, cq=0, rq=0, cc=0)

    def s(self, n):
        return getattr(self.dut, f"{self.fam}_{n}", None)

    def make(self):
        scn, dut, fam, w = self.scn, self.dut, self.fam, self.w
        cls = UltraScalePcieDevice if fam == "u" else UltraScalePlusPcieDevice
        off = set(scn.get("off", []))
        kw = {}
        for n in inspect.signature(cls.__init__).parameters:
            h = self.s(n)
            if h is not None and n not in off:
                kw[n] = h
        if scn.get("mp3"):
            kw["cfg_max_payload"] = dut.p_cfg_max_payload3
        if "fc_sel" in scn:
            kw["cfg_fc_sel"] = scn["fc_sel"]
        for h in list(kw.values()):
            if hasattr(h, "setimmediatevalue"):
                h.setimmediatevalue(0)
        gen, lw, f = FREQ[fam, w]
        if not scn.get("guess"):
            kw.update(pcie_generation=gen, pcie_link_width=lw, user_clk_frequency=f)
        st = scn.get("straddle", 0)
        self.segs = dict(rq=1, rc=1, cq=1, cc=1)
        if st and w == 256:
            kw["rc_straddle"] = True
            self.segs["rc"] = 2
        if st and w == 512:
            kw.update(rq_straddle=True, cq_straddle=True, cc_straddle=True, rc_straddle=True, rc_4tlp_straddle=st > 1)
            self.segs = dict(rq=2, rc=4 if st > 1 else 2, cq=2, cc=2)
        kw.update(scn.get("kw", {}))
        self.bus = {}
        for i in self.segs:
            self.bus[i] = AxiStreamBus.from_prefix(dut, f"{fam}{w}_{i}")
            for x in ("tvalid", "tready", "tlast", "tdata", "tuser", "tkeep"):
                getattr(self.bus[i], x).setimmediatevalue(0)
            kw[i + "_bus"] = self.bus[i]
        self.dev = cls(pf_count=scn["pf"], enable_client_tag=bool(scn["ct"]), enable_extended_tag=bool(scn["ext"]), enable_parity=bool(scn.get("par", 0)),
                       max_payload_size=scn.get("mps", 128), **kw)
        for fn, bars in enumerate(scn["bars"]):
            for b in bars:
                self.dev.functions[fn].configure_bar(b["i"], b["size"], ext=bool(b.get("ext")), prefetch=bool(b.get("pf")), io=bool(b.get("io")))
        self.user_clk = self.s("user_clk")
        rst = self.s("user_reset") if "user_reset" not in off else None
        self.rq = RqSource(self.bus["rq"], self.user_clk, rst, segments=self.segs["rq"])
        self.rc = RcSink(self.bus["rc"], self.user_clk, rst, segments=self.segs["rc"])
        self.cq = CqSink(self.bus["cq"], self.user_clk, rst, segments=self.segs["cq"])
        self.cc = CcSource(self.bus["cc"], self.user_clk, rst, segments=self.segs["cc"])
        self.str = dict(rq=self.rq, rc=self.rc, cq=self.cq, cc=self.cc)
        if self.s("sys_reset") is not None:
            self.s("sys_reset").setimmediatevalue(1)
        if self.s("cfg_config_space_enable") is not None:
            self.s("cfg_config_space_enable").setimmediatevalue(1)
        self.peer = SimPort(fc_init=[scn.get("fc", [64, 1024, 64, 64, 0, 0])] * 8)
        self.peer.max_link_speed, self.peer.max_link_width = 3, 16
        self.peer.rx_handler = self.peer_recv
        self.dev.connect(self.peer)

    # ------------------------------------------------------------------ link partner
    async def peer_recv(self, tlp):
        t = Tlp(tlp)
        if self.scn.get("fcdelay"):
            cocotb.start_soon(self.later_release(tlp))
        else:
            tlp.release_fc()
        c = cls_of(t)
        if self.setup:
            if t.tag in self.cfgc:
                self.cfgc.pop(t.tag).set(t)
            return
        self.act += 1
        self.log("up", **hdr(t))
        if c == "NP":
            self.seen.append(t)
            self.wakeup.set()

    async def later_release(self, tlp):
        for _ in range(self.g.choice([1, 3, 10, 40])):
            await RisingEdge(self.user_clk)
        tlp.release_fc()

    async def cfg(self, write, fn, reg, data=0, be=15, tag=0, bus=None):
        t = Tlp()
        t.fmt_type = TlpType.CFG_WRITE_0 if write else TlpType.CFG_READ_0
        t.requester_id = PcieId(0, 0, 0)
        t.completer_id = PcieId(self.scn["bus"] if bus is None else bus, 0, fn)
        t.address = reg
        t.length = 1
        t.first_be = be
        t.tag = tag
        if write:
            t.data = bytearray(data.to_bytes(4, "little"))
        e = self.cfgc[tag] = Event()
        await self.peer.send(t)
        await e.wait()
        return e.data

    async def enumerate(self):
        scn = self.scn
        fns = []
        for fn in range(scn["pf"]):
            for b in scn["bars"][fn]:
                await self.cfg(1, fn, 0x10 + 4 * b["i"], b["addr"] & 0xffffffff)
                if b.get("ext"):
                    await self.cfg(1, fn, 0x14 + 4 * b["i"], b["addr"] >> 32)
            await self.cfg(1, fn, 4, scn["cmd"][fn], be=3)
            await self.cfg(1, fn, PCAP[self.fam] + 8, (0x100 if scn["ext"] else 0) | 0x5000 | scn.get("mpsc", 0) << 5, be=3)
            fns.append(dict(id=scn["bus"] << 8 | fn, bme=scn["cmd"][fn] >> 2 & 1,
                            bars=[dict(i=b["i"], a=b8(b["addr"]), s=b["size"].bit_length() - 1, io=int(bool(b.get("io"))), on=scn["cmd"][fn] >> (0 if b.get("io") else 1) & 1) for b in scn["bars"][fn]]))
        self.setup = False
        off = scn.get("off", [])
        sfx = "" if self.fam == "u" else "0"
        self.log("cfg", fam=self.fam, w=self.w, ct=scn["ct"], ext=scn["ext"], bus=scn["bus"], fns=fns, np=1 if "pcie_cq_np_req" in off else scn.get("np0", 1),
                 seqm=16 if self.fam == "u" else 64, seqon="pcie_rq_seq_num" + sfx not in off, tagon=not scn["ct"] and "pcie_rq_tag" + sfx not in off)

    async def auto_cpl(self):
        """the link partner completes what it gets, in some order, split and delayed"""
        g, scn = self.g, self.scn
        work = []       # [request, next byte, remaining]
        while True:
            while self.hold or not (self.seen or work):
                self.wakeup.clear()
                await self.wakeup.wait()
            while self.seen:
                r = self.seen.pop(0)
                work.append([r, 0])
            for _ in range(g.choice(scn.get("delay", [0, 0, 0, 1, 5, 20]))):
                await RisingEdge(self.user_clk)
            if self.hold:
                continue
            k = 0 if scn.get("inorder") or g.random() < .4 else g.randrange(len(work))
            r, pos = work[k]
            if g.random() < scn.get("bogus", 0):
                await self.bogus(r)
            fin = await self.one_cpl(r, pos)
            if fin is None:
                work.pop(k)
            else:
                work[k][1] = fin

    def cpl_base(self, r, data=True):
        t = Tlp()
        t.fmt_type = TlpType.CPL_DATA if data else TlpType.CPL
        t.requester_id, t.completer_id = r.requester_id, PcieId(self.g.choice([0, 0, 3]), self.g.randrange(32), self.g.randrange(8))
        t.attr, t.tc, t.tag = r.attr, r.tc, r.tag
        return t

    async def one_cpl(self, r, pos):
        """one completion; returns the next position or None when the request is finished"""
        g, scn = self.g, self.scn
        x = g.random()
        n = r.fmt_type.name
        if x < scn.get("fail", 0):
            t = self.cpl_base(r, False)
            t.status = g.choice([CplStatus.UR, CplStatus.CA, CplStatus.CRS])
            t.byte_count = 4
            await self.send_cpl(t)
            return None
        if n.startswith("MEM_READ"):
            if pos == 0 and x < scn.get("fail", 0) + scn.get("nodata", 0):
                t = self.cpl_base(r, False)
                t.byte_count, t.lower_address = bcount(r), (r.address + foff(r.first_be)) & 0x7f
                await self.send_cpl(t)
                return None
            total, first = bcount(r), r.address + foff(r.first_be)
            left = total - pos
            addr = first + pos
            end_dw = (addr + left + 3) // 4
            dw = end_dw - addr // 4
            m = min(dw, 2 ** g.randrange(0, 6) if scn.get("anysplit") else dw if dw * 4 <= 64 or g.random() < .3 else (64 - addr % 64 + 3) // 4)
            m = min(m, scn.get("maxcpl", 32))
            t = self.cpl_base(r)
            t.length = m
            t.byte_count, t.lower_address = left, addr & 0x7f
            if g.random() < scn.get("poison", 0):
                t.ep = True
            t.data = bytearray(g.randbytes(4 * m))
            await self.send_cpl(t)
            pos += m * 4 - addr % 4
            return None if pos >= total else pos
        t = self.cpl_base(r, n == "IO_READ" or n.startswith("CFG_READ"))
        if t.fmt_type == TlpType.CPL_DATA:
            t.length = 1
            t.data = bytearray(g.randbytes(4))
        t.byte_count = 4
        if t.fmt_type == TlpType.CPL_DATA and g.random() < scn.get("poison", 0):
            t.ep = True
        await self.send_cpl(t)
        return None

    async def bogus(self, r):
        """completions that do not belong to the request they name"""
        g = self.g
        t = self.cpl_base(r, g.random() < .7)
        k = g.choice(["tag", "attr", "tc", "rid", "rid", "la", "fn"] if r.fmt_type.name.startswith("MEM_READ") else ["tag", "attr", "tc", "rid"])
        if t.fmt_type == TlpType.CPL_DATA:
            t.length = 1
            t.data = bytearray(g.randbytes(4))
        t.byte_count, t.lower_address = 4, g.randrange(128)
        if k == "tag":
            t.tag = g.choice(self.scn["never"])
        elif k == "attr":
            t.attr = TlpAttr(int(t.attr) ^ g.choice([1, 2, 4]))
        elif k == "tc":
            t.tc = TlpTc(int(t.tc) ^ g.choice([1, 2, 4]))
        elif k == "rid":
            t.requester_id = PcieId.from_int(int(t.requester_id) ^ g.choice([8, 0x10, 0x100, 0x8000]))
        elif k == "fn":
            f = g.randrange(8)
            t.requester_id = t.requester_id._replace(function=f)
            if int(t.requester_id) == int(r.requester_id):
                return
        elif k == "la":
            # a partial completion with a wrong address; not the last one
            if bcount(r) < 9:
                return
            t.fmt_type = TlpType.CPL_DATA
            t.length, t.data = 1, bytearray(4)
            t.byte_count = bcount(r)
            t.lower_address = (r.address + foff(r.first_be)) & 0x7f ^ g.choice([4, 8, 0x40])
        await self.send_cpl(t)

    async def send_cpl(self, t):
        self.act += 1
        if self.scn.get("inject"):
            # straight into the device, at the clock edge at which its streams move
            await RisingEdge(self.user_clk)
            for _ in range(self.scn["inject"] - 1):
                await NullTrigger()
            self.log("cpl", **hdr(t))
            await self.dev.upstream_recv(t)
            return
        self.log("cpl", **hdr(t))
        await self.peer.send(t)

    # ------------------------------------------------------------------ user side
    async def rc_reader(self):
        while True:
            t = Tlp_us.unpack_us_rc(await self.rc.recv(), bool(self.scn.get("par", 0)))
            await Timer(1, "ns")
            self.act += 1
            self.log("rc", **us(t))
            if t.request_completed and t.tag in self.busy_tags:
                self.busy_tags.discard(t.tag)
                self.tag_free.set()

    async def cq_reader(self):
        while True:
            t = Tlp_us.unpack_us_cq(await self.cq.recv(), bool(self.scn.get("par", 0)))
            await Timer(1, "ns")
            self.act += 1
            self.log("cq", **us(t))
            if cls_of(t) == "NP":
                self.cqs.append(t)
                self.cqwake.set()

    async def auto_cc(self):
        g, scn = self.g, self.scn
        while True:
            while self.cqhold or not self.cqs:
                self.cqwake.clear()
                await self.cqwake.wait()
            for _ in range(g.choice(scn.get("ccdelay", [0, 0, 0, 1, 5, 20]))):
                await RisingEdge(self.user_clk)
            r = self.cqs.pop(g.randrange(len(self.cqs)) if g.random() < .5 else 0)
            pos = 0
            while pos is not None:
                t = Tlp_us()
                rd = r.fmt_type.name.startswith("MEM_READ") or r.fmt_type.name == "IO_READ"
                t.fmt_type = TlpType.CPL_DATA if rd else TlpType.CPL
                t.requester_id, t.tag, t.tc, t.attr = r.requester_id, r.tag, r.tc, r.attr
                t.completer_id = PcieId(g.randrange(256), 0, r.completer_id.function)
                t.completer_id_enable = g.random() < .3
                if t.completer_id_enable:
                    t.completer_id = PcieId.from_int(g.getrandbits(16))
                if g.random() < scn.get("ccfail", 0):
                    t.fmt_type, t.status = TlpType.CPL, g.choice([CplStatus.UR, CplStatus.CA])
                    t.byte_count, pos = 4, None
                elif rd:
                    total = bcount(r)
                    addr, left = r.address + foff(r.first_be) + pos, total - pos
                    dw = (addr + left + 3) // 4 - addr // 4
                    m = min(dw, 32, dw if g.random() < .5 else (64 - addr % 64 + 3) // 4)
                    t.length, t.byte_count, t.lower_address = m, left, addr & 0x7f
                    t.data = bytearray(g.randbytes(4 * m))
                    t.ep = g.random() < .05
                    pos += m * 4 - addr % 4
                    if pos >= total:
                        pos = None
                else:
                    t.byte_count, pos = 4, None
                if g.random() < scn.get("disc", 0):
                    u = Tlp_us(t)
                    u.discontinue = True
                    await self.send_cc(u)
                await self.send_cc(t)

    async def send_cc(self, t):
        self.act += 1
        self.log("cc", **us(t))
        await self.cc.send(t.pack_us_cc())

    async def monitor(self):
        """status outputs that carry one value per clock"""
        names = [("seq", "pcie_rq_seq_num", "pcie_rq_seq_num_vld"), ("rqtag", "pcie_rq_tag", "pcie_rq_tag_vld")]
        chans = []
        for ev, v, vld in names:
            for sfx in ([""] if self.fam == "u" else ["0", "1"] if self.w == 512 else ["0"]):
                a, b = self.s(v + sfx), self.s(vld + sfx)
                if v + sfx not in self.scn.get("off", []):
                    chans.append((ev, a, b))
        le, lv = (self.s("cfg_local_error"), None) if self.fam == "u" else (self.s("cfg_local_error_out"), self.s("cfg_local_error_valid"))
        edge = RisingEdge(self.user_clk)
        while True:
            await edge
            for ev, a, b in chans:
                if int(b.value):
                    self.act += 1
                    self.log(ev, v=int(a.value))
            if "cfg_local_error" in self.scn.get("off", []):
                continue
            if int(le.value) if lv is None else int(lv.value):
                self.act += 1
                self.log("lerr", v=int(le.value))

    # ------------------------------------------------------------------ operations
    def mk(self, d, cls=Tlp):
        t = cls()
        t.fmt_type = TlpType[d["t"]]
        t.address = d["a"]
        t.length = d["n"]
        t.first_be, t.last_be = d["fbe"], d["lbe"]
        t.tc, t.attr, t.at = TlpTc(d.get("tc", 0)), TlpAttr(d.get("attr", 0)), TlpAt(d.get("at", 0))
        t.ep = bool(d.get("ep", 0))
        t.tag = d.get("tag", 0)
        if t.fmt_type.name.startswith(("MEM_WRITE", "IO_WRITE", "CFG_WRITE", "FETCH", "SWAP", "CAS")):
            t.data = bytearray(self.g.randbytes(4 * d["n"]))
        return t

    async def op_rq(self, d):
        t = self.mk(d, Tlp_us)
        t.requester_id = PcieId.from_int(d["rid"])
        t.completer_id = PcieId.from_int(d.get("cid", 0))
        t.requester_id_enable = bool(d.get("rie", 0))
        t.seq_num, t.discontinue = d.get("seq", 0), bool(d.get("disc", 0))
        if self.scn["ct"] and cls_of(t) == "NP" and not t.discontinue and not d.get("dead"):
            # the user owns the tags
            while True:
                free = [x for x in self.scn["tags"] if x not in self.busy_tags]
                if free:
                    break
                self.tag_free.clear()
                await self.tag_free.wait()
            t.tag = self.g.choice(free)
            self.busy_tags.add(t.tag)
        self.act += 1
        self.log("rq", **us(t))
        await self.rq.send(t.pack_us_rq())

    async def op_req(self, d):
        t = self.mk(d)
        t.requester_id = PcieId.from_int(d["rid"])
        t.completer_id = PcieId.from_int(d.get("cid", 0))
        self.act += 1
        self.log("req", **hdr(t))
        await self.peer.send(t)

    async def op_hold(self, v):
        self.hold = bool(v)
        self.wakeup.set()

    async def op_late(self, k):
        """complete the oldest held request, k clocks from now"""
        async def late():
            for _ in range(k):
                await RisingEdge(self.user_clk)
            r, pos = self.seen.pop(0), 0
            while pos is not None:
                pos = await self.one_cpl(r, pos)
        cocotb.start_soon(late())

    async def op_cqhold(self, v):
        self.cqhold = bool(v)
        self.cqwake.set()

    async def op_pause(self, i, p):
        """stall pattern; 1: stop, 0: run"""
        x = self.str[i]
        if isinstance(p, list) and p:
            self.paused[i] = 0
            x.set_pause_generator(itertools.cycle(p))
        else:
            x.clear_pause_generator()
            x.pause = bool(p)
            self.paused[i] = int(bool(p))

    async def op_wait(self, n):
        for _ in range(n):
            await RisingEdge(self.user_clk)

    async def op_npreq(self, pat):
        s = self.s("pcie_cq_np_req")
        for v in pat:
            s.value = v
            await RisingEdge(self.user_clk)
            self.log("np", v=v, c=1)
        s.value = 0

    async def op_nphold(self, v):
        self.s("pcie_cq_np_req").value = v
        self.log("nphold", v=v)

    async def op_cse(self, v):
        self.s("cfg_config_space_enable").value = v
        await RisingEdge(self.user_clk)
        self.log("cse", v=v)

    async def op_sig(self, n, v):
        self.s(n).value = v

    def quiet(self, idle):
        """clocks without any activity after which nothing is under way (a slow link takes microseconds to return credits)"""
        f = getattr(self.dev, "pld_clk_frequency", None) or getattr(self.dev, "user_clk_frequency", None) or 250e6
        return max(idle, int(1.2 * f * (self.peer.max_latency_timer_steps / self.peer.time_scale + 600 * self.peer.symbol_period)))

    async def op_settle(self, idle=120):
        idle = self.quiet(idle)
        k, last = 0, -1
        t = 0
        while k < idle and t < 20000:
            await RisingEdge(self.user_clk)
            t += 1
            if self.act != last:
                k, last = 0, self.act
            else:
                k += 1
        o = dict(p=self.paused, hold=int(self.hold))
        for n in ("pcie_rq_tag_av", "pcie_cq_np_req_count"):
            if n not in self.scn.get("off", []):
                o[n] = int(self.s(n).value)
        self.log("settle", **o)


def foff(be):
    for k in range(4):
        if be >> k & 1:
            return k
    return 0


def bcount(r):
    if r.length == 1 and r.first_be == 0:
        return 1
    last = r.first_be if r.length == 1 else r.last_be
    return r.length * 4 - foff(r.first_be) - (3 - max((k for k in range(4) if last >> k & 1), default=3))


async def run(dut, scn, log, cls=None):
    e = (cls or Env)(dut, scn, log)
    e.make()
    if e.s("pcie_cq_np_req") is not None:
        e.s("pcie_cq_np_req").setimmediatevalue(scn.get("np0", 1))
    await Timer(200, "ns")
    cocotb.start_soon(e.rc_reader())
    cocotb.start_soon(e.cq_reader())
    await e.enumerate()
    cocotb.start_soon(e.monitor())
    cocotb.start_soon(e.auto_cpl())
    cocotb.start_soon(e.auto_cc())
    for op in scn["ops"]:
        await getattr(e, "op_" + op[0])(*op[1:])
    log("end")
