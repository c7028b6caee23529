"""Capability registration: sequences of registrations and removals on fresh functions, lists walked by configuration reads and by the host."""
import struct
from cocotb.triggers import Timer
from cocotbext.pcie.core import RootComplex, Device, MemoryEndpoint
from cocotbext.pcie.core.endpoint import Endpoint
from cocotbext.pcie.core.bridge import Bridge
from cocotbext.pcie.core.caps.common import PciCap, PciExtCap
from cocotbext.pcie.core.tlp import Tlp, TlpType
from cocotbext.pcie.core.utils import PcieId
from common import *


def model(n):
    if n == "us":
        from cocotbext.pcie.xilinx.us.us_model import UltraScalePcieFunction as F
    elif n == "usp":
        from cocotbext.pcie.xilinx.us.usp_model import UltraScalePlusPcieFunction as F
    elif n == "s10":
        from cocotbext.pcie.intel.s10.s10_model import S10PcieFunction as F
    elif n == "ptile":
        from cocotbext.pcie.intel.ptile.ptile_model import PTilePcieFunction as F
    else:
        from cocotbext.pcie.core.endpoint import Endpoint as F
    return F


def make(k, c, hits):
    class C(PciExtCap if c["ext"] else PciCap):
        async def _read_register(self, reg):
            return (k * 64 + reg) << (16 if reg == 0 else 0)

        async def _write_register(self, reg, data, mask):
            hits.append([k, reg, data & 0xffff, data >> 16, mask])
    o = C()
    o.cap_id, o.cap_ver, o.length = c["id"], c["ver"], c["len"]
    return o


class Run:
    def __init__(self, s, log):
        self.s, self.log, self.hits = s, log, []
        if s.get("host"):
            self.rc, self.dev, fn = RootComplex(), Device(), Endpoint()
            self.dev.append_function(fn)
            self.rc.make_port().connect(self.dev)
        else:
            fn = model(s["model"])() if s.get("model") else (Bridge if s.get("br") else Endpoint)()
            fn.pcie_id = PcieId(1, 0, 0)
            self.out = []

            async def tx(t):
                self.out.append(t)
            fn.upstream_tx_handler = tx
        self.fn = fn
        if s.get("model"):
            # every capability the model of a device has
            cs = [c for c in vars(fn).values() if isinstance(c, PciCap)]
            self.caps = {k + 1: c for k, c in enumerate(cs)}
            s["caps"] = [dict(ext=int(isinstance(c, PciExtCap)), id=int(c.cap_id), ver=c.cap_ver if isinstance(c, PciExtCap) else 0, len=c.length) for c in cs]
            log("new", caps=[dict(c, k=k + 1, ext=bool(c["ext"])) for k, c in enumerate(s["caps"])],
                std=[[k, c.offset] for k, c in self.caps.items() if not isinstance(c, PciExtCap)],
                ext=[[k, c.offset] for k, c in self.caps.items() if isinstance(c, PciExtCap)])
            return
        for c in list(fn.capabilities.list):
            fn.deregister_capability(c)
        self.caps = {k + 1: make(k + 1, c, self.hits) for k, c in enumerate(s["caps"])}
        for k, off in s.get("init", []):
            self.register(k, off)
        log("new", caps=[dict(c, k=k + 1, ext=bool(c["ext"])) for k, c in enumerate(s["caps"])], **self.places())

    def places(self):
        inv = {id(c): k for k, c in self.caps.items()}
        return dict(std=[[inv[id(c)], c.offset] for c in self.fn.capabilities.list], ext=[[inv[id(c)], c.offset] for c in self.fn.ext_capabilities.list])

    def register(self, k, off):
        if self.s["caps"][k - 1]["ext"]:
            self.fn.register_extended_capability(self.caps[k], off or None)
        else:
            self.fn.register_capability(self.caps[k], off or None)

    async def cfg(self, w, r, be=15, data=0):
        if self.s.get("host"):
            p = self.dev.functions[0].pcie_id
            if w:
                await self.rc.config_write(p, r * 4, struct.pack("<L", data))
                return 0
            return struct.unpack("<L", bytes(await self.rc.config_read(p, r * 4, 4)))[0]
        t = Tlp()
        t.fmt_type = TlpType.CFG_WRITE_0 if w else TlpType.CFG_READ_0
        t.requester_id = PcieId(0, 0, 0)
        t.completer_id = self.fn.pcie_id
        t.address, t.length, t.first_be, t.tag = r << 2, 1, be, 3
        if w:
            t.set_data(struct.pack("<L", data))
        self.out.clear()
        await self.fn.upstream_recv(t)
        assert len(self.out) == 1, self.out
        return 0 if w else struct.unpack("<L", bytes(self.out[0].data))[0]

    async def walk(self, full):
        std, ext = [], []
        p = (await self.cfg(0, 13)) & 0xfc
        while p and len(std) < 60:
            v = await self.cfg(0, p // 4)
            std.append([p, v & 0xff])
            p = v >> 8 & 0xfc
        p = 0x100
        while p and len(ext) < 60:
            v = await self.cfg(0, p // 4)
            if not v:
                break
            ext.append([p, v & 0xffff, v >> 16 & 15])
            p = v >> 20 & 0xffc
        regs = []
        top = 1024 if full else 64 + max([c.offset + c.length - 64 for c in self.fn.ext_capabilities.list] + [2])
        for r in range(16, min(top + 2, 1024)):
            v = await self.cfg(0, r)
            if v:
                regs.append([r, v & 0xffff, v >> 16])
        if self.s.get("model"):
            self.log("lists", std=std, ext=ext)
        else:
            self.log("walk", std=std, ext=ext, regs=regs)

    async def host(self):
        d = self.rc.find_device(self.dev.functions[0].pcie_id)
        d.capabilities.clear()
        d.ext_capabilities.clear()
        await d.walk_capabilities()
        self.log("host", std=[[p, int(i)] for i, p in d.capabilities], ext=[[p, int(i)] for i, p in d.ext_capabilities])

    async def go(self):
        if self.s.get("host"):
            await self.rc.enumerate()
            await self.host()
        for op in self.s["ops"]:
            if op[0] == "reg":
                self.register(op[1], op[2])
                self.log("reg", k=op[1], off=op[2], **self.places())
            elif op[0] == "del":
                if self.s["caps"][op[1] - 1]["ext"]:
                    self.fn.deregister_extended_capability(self.caps[op[1]])
                else:
                    self.fn.deregister_capability(self.caps[op[1]])
                self.log("del", k=op[1], **self.places())
            elif op[0] == "walk":
                await self.walk(op[1])
            elif op[0] == "host":
                await self.host()
            elif op[0] == "wr":
                self.hits.clear()
                await self.cfg(1, op[1], op[2], op[3])
                self.log("wr", r=op[1], be=op[2], data=[op[3] & 0xffff, op[3] >> 16], hit=[list(h) for h in self.hits])


async def run(dut, scn, log):
    for s in scn["seqs"]:
        await Run(s, log).go()
    await Timer(1, "ns")
    log("end")
