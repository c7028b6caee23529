"""Error bits of the status registers: poisoned TLPs, failed completions, host accesses that enable, read and clear."""
import cocotb
from cocotb.triggers import Timer
from common import *
import drivers.fabric as fabric
from drivers.fabric import SHORT

BITS = {"mdpe": 8, "sta": 11, "rta": 12, "rma": 13}


class ErrEnv(fabric.Env):
    def build(self):
        super().build()
        self.reply = {}
        for ty in (TlpType.MEM_READ, TlpType.MEM_READ_64):
            async def h(tlp, orig=self.rc.handle_mem_read_tlp):
                r = self.reply.get(0)
                if r is None:
                    await orig(tlp)
                else:
                    await self.answer(self.rc, PcieId(0, 0, 0), tlp, r)
            self.rc.register_rx_tlp_handler(ty, h)
        for f, fn in self.fns.items():
            async def script(ag, tlp, f=f):
                r = self.reply.get(f)
                if r is None:
                    ag.script = None
                    try:
                        await ag.handle_mem_read_tlp(tlp)
                    finally:
                        ag.script = script_of[f]
                else:
                    await self.answer(ag, ag.pcie_id, tlp, r)
            script_of[f] = script
            fn.script = script

    async def answer(self, ag, me, tlp, r):
        """Completion with status r['st'], poisoned if r['ep']."""
        if r["st"]:
            c = {1: Tlp.create_ur_completion_for_tlp, 4: Tlp.create_ca_completion_for_tlp}[r["st"]](tlp, me)
        else:
            c = Tlp.create_completion_data_for_tlp(tlp, me)
            c.byte_count = tlp.length * 4
            c.lower_address = tlp.address & 0x7f
            c.set_data(bytes(tlp.length * 4))
        c.ep = bool(r["ep"])
        await ag.send(c)

    def any(self, f):
        return self.fns.get(f) or self.brs.get(f)

    async def op_answer(self, s):
        """From now on function f answers memory reads like this (None: as it would)."""
        self.reply[s["f"]] = s.get("r")

    async def op_send(self, s):
        """A memory (or I/O) request from f, possibly poisoned."""
        ag = self._agent(s["f"])
        t = Tlp()
        ty = s["ty"]
        if "hole" in s:
            hs = self.holes(ty.startswith("IO"), 64)
            addr = hs[s["hole"] % len(hs)] & ~3
        else:
            addr = self.region(s["r"])[0] + s["o"]
        if ty in ("MRd", "MWr") and addr > 0xffffffff:
            ty += "64"
        t.fmt_type = TlpType[{v: k for k, v in SHORT.items()}[ty]]
        t.requester_id = ag.pcie_id if s["f"] else PcieId(0, 0, 0)
        t.address, t.length = addr, s.get("n", 1)
        t.first_be, t.last_be = 15, 15 if t.length > 1 else 0
        t.ep = bool(s.get("ep"))
        if t.has_data():
            t.set_data(bytes(4 * t.length))
        if t.is_posted():
            await ag.perform_posted_operation(t)
        else:
            await ag.perform_nonposted_operation(t, 5000, "ns")

    async def op_bcpl(self, s):
        """Bridge f sends a completion nobody asked for to function `to`."""
        b = self.brs[s["f"]]
        t = Tlp()
        t.fmt_type = TlpType.CPL
        t.requester_id, t.completer_id = (self.fns[s["to"]].pcie_id if s["to"] else PcieId(0, 0, 0)), b.pcie_id
        t.tag, t.status, t.ep, t.byte_count = 31, CplStatus(s["st"]), bool(s["ep"]), 4
        self.log("bsnd", f=s["f"], to=s["to"], **fabric.tl(t))
        await b.send(t)

    async def op_tobr(self, s):
        """Function f (0: host) sends a completion nobody asked for to bridge `to`."""
        b = self.brs[s["to"]]
        t = Tlp()
        t.fmt_type = TlpType.CPL
        t.requester_id, t.completer_id = b.pcie_id, (self.fns[s["f"]].pcie_id if s["f"] else PcieId(0, 0, 0))
        t.tag, t.status, t.byte_count = 31, CplStatus(s["st"]), 4
        self.log("tobr", f=s["f"], to=s["to"], st=s["st"])
        await self._agent(s["f"]).send(t)

    async def op_per(self, s):
        """Parity error response of f: command register and bridge control register."""
        d = self.rc.find_device(self.any(s["f"]).pcie_id)
        v = await d.config_read_word(4)
        await d.config_write_word(4, v & ~0x40 | s["per"] << 6)
        if s["f"] in self.brs:
            v = await d.config_read_word(0x3e)
            await d.config_write_word(0x3e, v & ~1 | s["bper"])
        self.log("par", f=s["f"], per=s["per"], bper=s["bper"])

    async def op_stat(self, s):
        await Timer(s.get("t", 1500), "ns")
        for f in s["f"] or [t["f"] for t in self.truth]:
            d = self.rc.find_device(self.any(f).pcie_id)
            v = await d.config_read_word(6)
            w = await d.config_read_word(0x1e) if f in self.brs else 0
            self.log("stat", f=f, pri=[n for n, b in BITS.items() if v >> b & 1], sec=[n for n, b in BITS.items() if w >> b & 1])

    async def op_clr(self, s):
        """Write 1 to some status bits, with a byte, word or dword access."""
        f = s["f"]
        d = self.rc.find_device(self.any(f).pcie_id)
        v = sum(1 << BITS[n] for n in s["pri"])
        if s["how"] == 1:
            await d.config_write_byte(7, v >> 8)
        elif s["how"] == 2:
            await d.config_write_word(6, v)
        else:
            await d.config_write_dword(4, await d.config_read_word(4) | v << 16)
        w = 0
        if f in self.brs:
            w = sum(1 << BITS[n] for n in s["sec"])
            if s["how"] == 1:
                await d.config_write_byte(0x1f, w >> 8)
            elif s["how"] == 2:
                await d.config_write_word(0x1e, w)
            else:
                await d.config_write_dword(0x1c, await d.config_read_word(0x1c) | w << 16)
        self.log("clr", f=f, pri=[n for n, b in BITS.items() if v >> b & 1], sec=[n for n, b in BITS.items() if w >> b & 1])


script_of = {}


async def run(dut, scn, log):
    e = ErrEnv(scn, log)
    e.build()
    await Timer(1, "ns")
    e.log_topo()
    await e.steps(scn["steps"])
    log("end")
