"""Stratix 10 and P-Tile device models between a raw link partner and user logic built from the library's stream sources and sinks."""
import inspect
import cocotb
from cocotb.triggers import RisingEdge, Timer, Event, Lock
from cocotbext.pcie.core.port import SimPort
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpTc, TlpAttr, TlpAt, CplStatus
from cocotbext.pcie.core.utils import PcieId
from cocotbext.pcie.intel.s10 import S10PcieDevice
from cocotbext.pcie.intel.s10 import interface as S
from cocotbext.pcie.intel.ptile import PTilePcieDevice
from cocotbext.pcie.intel.ptile import interface as P
from common import cls_of
from drivers.usdev import Env, hdr, b8, bcount, foff
from drivers.uscfg import bits, CfgEnv

BUS = dict(s=(S.S10RxBus, S.S10TxBus), t=(P.PTileRxBus, P.PTileTxBus))


class InEnv(Env):
    describe = CfgEnv.describe
    release = CfgEnv.release
    op_keep = CfgEnv.op_keep

    def make(self):
        scn, dut, fam, w, n = self.scn, self.dut, self.fam, self.scn["w"], self.scn["n"]
        cls = S10PcieDevice if fam == "s" else PTilePcieDevice
        off = set(scn.get("off", []))
        kw = {}
        for x in inspect.signature(cls.__init__).parameters:
            h = self.s(x)
            if h is not None and x not in off and not isinstance(h, (int, str)):
                kw[x] = h
                h.setimmediatevalue(0)
        self.pin = "pin_perst" if fam == "s" else "pin_perst_n"
        self.s(self.pin).setimmediatevalue(1)
        if fam == "s":
            kw["l_tile"] = bool(scn["lt"])
        else:
            kw["port_num"] = scn["port"]
        kw.update(scn["conf"])
        kw.update(scn["kw"])
        pre = f"{fam}{w}x{n}" + ("" if scn["opt"] else "n")
        rxb, txb = BUS[fam][0].from_prefix(dut, pre + "_rx"), BUS[fam][1].from_prefix(dut, pre + "_tx")
        for b in (rxb, txb):
            for h in b._signals.values():
                h.setimmediatevalue(0)
        self.dev = cls(pf_count=scn["pf"], max_payload_size=scn["mps"], enable_extended_tag=bool(scn["ext"]), rx_bus=rxb, tx_bus=txb, **kw)
        for fn, bars in enumerate(scn["bars"]):
            for b in bars:
                self.dev.functions[fn].configure_bar(b["i"], b["size"], ext=bool(b.get("ext")), prefetch=bool(b.get("pf")), io=bool(b.get("io")))
        self.user_clk = self.s("coreclkout_hip")
        m = S if fam == "s" else P
        sink, src = (S.S10PcieSink, S.S10PcieSource) if fam == "s" else (P.PTilePcieSink, P.PTilePcieSource)
        self.Frame = S.S10PcieFrame if fam == "s" else P.PTilePcieFrame
        self.rx = sink(rxb, self.user_clk, ready_latency=27 if fam == "t" else 18 if w == 512 else 17)
        self.tx = src(txb, self.user_clk, ready_latency=3)
        self.str = dict(rx=self.rx, tx=self.tx)
        self.paused = dict(rx=0, tx=0)
        self.peer = SimPort(fc_init=[scn["fc"]] * 8)
        self.peer.max_link_speed, self.peer.max_link_width = 4, 16
        self.peer.rx_handler = self.peer_recv
        self.more = dict(port=scn["port"] if fam == "t" else scn["lt"], kind="", opt=scn["opt"], ext=scn["ext"], pf=scn["pf"])
        self.kept, self.keep = [], False
        self.setup = False
        send, lock = self.peer.send, Lock()

        async def wrapped(t):
            await lock.acquire()
            self.act += 1
            self.log("dn", **hdr(t))
            await send(t)
            lock.release()
        self.peer.send = wrapped
        self.dev.connect(self.peer)
        for k, f in enumerate(self.dev.functions):
            for cap, d in scn["attrs"][k].items():
                for a, v in d.items():
                    setattr(getattr(f, cap), a, v)

    async def peer_recv(self, tlp):
        t = Tlp(tlp)
        self.act += 1
        c = cls_of(t)
        self.log("up", **hdr(t))
        if self.keep and c != "CPL":
            self.kept.append((tlp, t))
        else:
            self.release(tlp, t)
        if c == "CPL" and t.tag in self.cfgc and int(t.requester_id) == 0:
            self.cfgc.pop(t.tag).set(t)
        elif c == "NP":
            self.seen.append(t)
            self.wakeup.set()

    async def send_cpl(self, t):
        self.act += 1
        if self.scn.get("inject"):
            await RisingEdge(self.user_clk)
            self.log("dn", **hdr(t))
            await self.dev.upstream_recv(t)
        else:
            await self.peer.send(t)

    # ------------------------------------------------------------------ user side
    async def rx_reader(self):
        while True:
            f = await self.rx.recv()
            await Timer(1, "ns")
            self.act += 1
            t = f.to_tlp()
            o = dict(bar=int(f.bar_range), fn=int(f.func_num), vf=-1 if f.vf_num is None else int(f.vf_num), err=int(f.err), par=int(bool(f.check_parity())))
            if self.fam == "t":
                o.update(ab=int(f.tlp_abort), px=int(f.tlp_prfx))
            self.log("rx", **hdr(t), **o)
            if cls_of(t) == "NP":
                self.cqs.append((t, o["fn"]))
                self.cqwake.set()

    async def auto_cc(self):
        """user logic completes what it gets"""
        g, scn = self.g, self.scn
        while True:
            while self.cqhold or not self.cqs:
                self.cqwake.clear()
                await self.cqwake.wait()
            for _ in range(g.choice(scn.get("ccdelay", [0, 0, 0, 1, 5, 20]))):
                await RisingEdge(self.user_clk)
            r, fn = self.cqs.pop(g.randrange(len(self.cqs)) if g.random() < .5 else 0)
            rd = r.fmt_type.name.startswith("MEM_READ") or r.fmt_type.name == "IO_READ"
            pos = 0
            while pos is not None:
                t = Tlp()
                t.fmt_type = TlpType.CPL_DATA if rd else TlpType.CPL
                t.requester_id, t.tag, t.tc, t.attr = r.requester_id, r.tag, r.tc, r.attr
                t.completer_id = PcieId(self.dev.bus_num, 0, fn)
                if g.random() < scn.get("ccfail", 0):
                    t.fmt_type, t.status = TlpType.CPL, g.choice([CplStatus.UR, CplStatus.CA])
                    t.byte_count, pos = 4, None
                elif rd:
                    total = bcount(r)
                    addr, left = r.address + foff(r.first_be) + pos, total - pos
                    dw = (addr + left + 3) // 4 - addr // 4
                    m = min(dw, 32, dw if g.random() < .5 else (64 - addr % 64 + 3) // 4)
                    t.length, t.byte_count, t.lower_address = m, left, addr & 0x7f
                    t.data = bytearray(g.randbytes(4 * m))
                    t.ep = g.random() < .05
                    pos += m * 4 - addr % 4
                    if pos >= total:
                        pos = None
                else:
                    t.byte_count, pos = 4, None
                await self.send_tx(t)

    async def send_tx(self, t):
        self.act += 1
        self.log("tx", **hdr(t))
        await self.tx.send(self.Frame.from_tlp(t))

    async def op_rq(self, d):
        t = self.mk(d)
        t.requester_id, t.completer_id = PcieId(self.dev.bus_num, 0, d["rid"] & 7), PcieId.from_int(d.get("cid", 0))
        await self.send_tx(t)

    async def bogus(self, r):
        """completions for nobody"""
        g = self.g
        t = self.cpl_base(r, g.random() < .7)
        if t.fmt_type == TlpType.CPL_DATA:
            t.length, t.data = 1, bytearray(g.randbytes(4))
        t.byte_count, t.lower_address = 4, g.randrange(128)
        t.requester_id = g.choice([PcieId.from_int(int(t.requester_id) ^ g.choice([8, 0x10, 0x100, 0x8000])), t.requester_id._replace(function=g.randrange(8))])
        await self.send_cpl(t)

    async def op_cpls(self, n, dw, fn):
        """completions straight into the device, faster than the user takes them"""
        g = self.g
        for k in range(n):
            t = Tlp()
            d = dw if dw >= 0 else g.choice([0, 1, 4, 5, 32])
            t.fmt_type = TlpType.CPL_DATA if d else TlpType.CPL
            t.requester_id, t.completer_id, t.tag = PcieId(self.dev.bus_num, 0, fn), PcieId(0, 0, 0), k & 255
            t.length, t.byte_count = d, 4 * d or 4
            t.data = bytearray(g.randbytes(4 * d))
            self.act += 1
            if k % 8 == 0:
                await RisingEdge(self.user_clk)
            self.log("dn", **hdr(t), inj=1)
            await self.dev.upstream_recv(t)

    async def op_acc(self, w, fn, reg, be=15, data=0, bus=None, tag=200):
        await self.cfg(w, fn, reg * 4, data, be, tag=tag, bus=bus)

    async def op_accn(self, w, fn, reg, be=15, data=0, bus=None, tag=201):
        """not awaited"""
        cocotb.start_soon(self.cfg(w, fn, reg * 4, data, be, tag=tag, bus=bus))

    async def op_par(self, ops):
        for t in [cocotb.start_soon(getattr(self, "op_" + o[0])(*o[1:])) for o in ops]:
            await t.join()

    # ------------------------------------------------------------------ interrupts, status
    async def op_msi(self, fn, num, tc, block=0):
        s, clk = self.s, self.user_clk
        s("app_msi_func_num").value, s("app_msi_num").value, s("app_msi_tc").value = fn, num, tc
        s("app_msi_req").value = 1
        self.log("int", f=fn, num=num, tc=tc)
        n = k = 0
        while n < self.quiet(60) + block:
            await RisingEdge(clk)
            n += 1
            if block and n == block:
                await self.op_keep(0)
            if int(s("app_msi_ack").value):
                k += 1
                break
        s("app_msi_req").value = 0
        s("app_msi_func_num").value, s("app_msi_num").value, s("app_msi_tc").value = self.g.randrange(4), self.g.randrange(32), self.g.randrange(8)
        for _ in range(30):
            await RisingEdge(clk)
            k += int(s("app_msi_ack").value)
        self.log("ack", n=k)

    async def op_tl(self):
        await self.op_settle(40)
        last = {}
        for _ in range(self.scn["pf"] * 33 + 4):
            await RisingEdge(self.user_clk)
            last[int(self.s("tl_cfg_func").value), int(self.s("tl_cfg_add").value)] = bits(int(self.s("tl_cfg_ctl").value))
        for _ in range(self.scn["pf"] * 32 + 4):
            await RisingEdge(self.user_clk)
            last[int(self.s("tl_cfg_func").value), int(self.s("tl_cfg_add").value)] = bits(int(self.s("tl_cfg_ctl").value))
        self.log("tl", v=[[k[0], k[1], v] for k, v in sorted(last.items())])

    async def op_cr(self):
        await self.op_settle()
        if self.fam == "s":
            v = [int(self.s("tx_" + x + "_cdts").value) for x in ("ph", "pd", "nph", "npd", "cplh", "cpld")]
        else:
            d = {}
            for _ in range(14):
                await RisingEdge(self.user_clk)
                d[int(self.s("tx_cdts_limit_tdm_idx").value)] = int(self.s("tx_cdts_limit").value)
            v = [d.get(k, -1) for k in (0, 4, 1, 5, 2, 6)]
        self.log("cr", v=v)

    async def op_reset(self, v):
        self.s(self.pin).value = v
        for _ in range(120):
            await RisingEdge(self.user_clk)
        o = [int(self.s("reset_status").value)]
        if self.fam == "t":
            o.append(1 - int(self.s("reset_status_n").value))
        else:
            o += [int(self.s("clr_st").value), int(self.s("pld_clk_inuse").value)]
        self.log("reset", v=v, o=o)

    async def op_settle(self, idle=120):
        idle = self.quiet(idle)
        k, last, t = 0, -1, 0
        while k < idle and t < 20000:
            await RisingEdge(self.user_clk)
            t += 1
            if self.act != last:
                k, last = 0, self.act
            else:
                k += 1
        self.log("settle", p=self.paused, hold=int(self.hold), keep=int(self.keep))


async def run(dut, scn, log):
    e = InEnv(dut, scn, log)
    e.make()
    await Timer(300, "ns")
    await RisingEdge(e.user_clk)
    e.log("reset0", o=int(e.s("reset_status").value))
    cocotb.start_soon(e.rx_reader())
    cocotb.start_soon(e.auto_cpl())
    cocotb.start_soon(e.auto_cc())
    e.describe()
    for op in scn["ops"]:
        await getattr(e, "op_" + op[0])(*op[1:])
    log("end")
