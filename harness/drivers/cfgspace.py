"""One function, driven with configuration requests; the whole configuration space is read back after each write."""
import struct
from cocotb.triggers import Timer
from cocotbext.pcie.core.endpoint import Endpoint
from cocotbext.pcie.core.bridge import Bridge
from cocotbext.pcie.core.caps import PmCapability, PcieCapability, MsiCapability, MsixCapability, AerExtendedCapability, PcieExtendedCapability
from cocotbext.pcie.core.tlp import Tlp, TlpType
from cocotbext.pcie.core.utils import PcieId
from common import *

CAPS = {"MSI": MsiCapability, "MSIX": MsixCapability, "AER": AerExtendedCapability, "EXP2": PcieExtendedCapability}


def bits(v):
    v = int(v)
    return [k for k in range(max(v.bit_length(), 1)) if v >> k & 1]


class Fn:
    def __init__(self, s, log):
        self.s, self.log = s, log
        self.fn = fn = (Bridge if s["k"] == "br" else Endpoint)()
        fn.pcie_id = PcieId(s.get("bus", 0), s.get("dev", 0), s.get("fnum", 0))
        self.out = []

        async def tx(t):
            self.out.append(t)
        fn.upstream_tx_handler = tx
        for b in s["bars"]:
            fn.configure_bar(b["i"], b["size"], bool(b.get("ext")), bool(b.get("pf")), bool(b.get("io")))
        if s["rom"]:
            fn.expansion_rom_addr_mask = 0xffffffff & ~((1 << s["rom"]) - 1)
        self.caps = []
        for c in s["caps"]:
            cap = fn.pm_cap if c["ty"] == "PM" else fn.pcie_cap if c["ty"] == "EXP" else CAPS[c["ty"]]()
            if "len" in c:
                cap.length = c["len"]
            if c["ty"] in ("AER", "EXP2"):
                fn.register_extended_capability(cap, c.get("off"))
            elif c["ty"] not in ("PM", "EXP") or "off" in c:
                fn.register_capability(cap, c.get("off"))
            self.caps.append((c, cap))
        self.put(fn, s["at"])
        for c, cap in self.caps:
            self.put(cap, c["at"])

    def put(self, o, at):
        for n, v in at.items():
            if "." in n:
                a, i = n.split(".")
                getattr(o, a)[int(i)] = v
            else:
                assert hasattr(o, n), n
                setattr(o, n, v)

    def init(self):
        fn = self.fn
        at = dict(self.s["at"], header_layout=fn.header_layout, capabilities_list=int(fn.capabilities_list))
        self.log("fn", k=self.s["k"], at={n: bits(v) for n, v in at.items()}, rom=self.s["rom"],
                 bars=[dict(i=b["i"], lg=(b["size"] - 1).bit_length(), ext=bool(b.get("ext")), pf=bool(b.get("pf")), io=bool(b.get("io"))) for b in self.s["bars"]],
                 caps=[dict(ty=c["ty"], off=cap.offset, len=cap.length, at={n: bits(v) for n, v in c["at"].items()},
                            a64=bool(c["at"].get("msi_64bit_address_capable")), pvm=bool(c["at"].get("msi_per_vector_mask_capable")),
                            xd=bool(c["at"].get("msi_extended_message_data_capable"))) for c, cap in self.caps])

    async def cfg(self, w, r, be=15, data=0):
        t = Tlp()
        t.fmt_type = TlpType.CFG_WRITE_0 if w else TlpType.CFG_READ_0
        t.requester_id = PcieId(0, 0, 0)
        t.completer_id = self.fn.pcie_id
        t.address, t.length, t.first_be, t.tag = r << 2, 1, be, 3
        if w:
            t.set_data(struct.pack("<L", data))
        self.out.clear()
        await self.fn.upstream_recv(t)
        assert len(self.out) == 1, self.out
        c = self.out[0]
        if w:
            return int(c.status), 0
        return int(c.status), struct.unpack("<L", bytes(c.data))[0] if c.data else 0

    async def dump(self):
        out = []
        for r in range(1024):
            st, v = await self.cfg(0, r)
            assert st == 0
            if v:
                out.append([r, bits(v)])
        self.log("dump", regs=out)


async def run(dut, scn, log):
    f = Fn(scn["fn"], log)
    f.init()
    await f.dump()
    for s in scn["steps"]:
        if s[0] == "w":
            st, _ = await f.cfg(1, s[1], s[2], s[3])
            log("wr", r=s[1], en=bits(s[2]), data=bits(s[3]), st=st)
            if s[4]:
                await f.dump()
        else:
            st, v = await f.cfg(0, s[1], s[2])
            log("rd", r=s[1], data=bits(v), st=st)
    await f.dump()
    await Timer(1, "ns")
    log("end")
