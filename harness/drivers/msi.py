"""Interrupts: functions with every kind of MSI / MSI-X capability, host allocation, handlers, masks."""
import struct
import cocotb
from cocotb.triggers import Timer
from cocotbext.pcie.core.caps import PciCapId
from cocotbext.pcie.core.tlp import TlpType, TlpAttr, TlpTc
from common import *
import drivers.fabric as fabric


class MsiEnv(fabric.Env):
    def build(self):
        super().build()
        self.fspec = {t["f"]: t["spec"] for t in self.truth if t["k"] == "ep"}
        self.nh = 0
        self.watched, self.vectors = set(), []
        orig = self.rc.msi_region.write

        async def write(addr, data, **kw):
            d = bytes(data)
            self.log("msg", a=limbs(0x80000000 + addr), d=int.from_bytes(d[:4], "little"), n=len(d))
            await orig(addr, data, **kw)
        self.rc.msi_region.write = write

    def dev(self, f):
        return self.rc.find_device(self.fns[f].pcie_id)

    async def regs(self, f):
        """The function's registers and its MSI-X table, as the hardware sees them."""
        fn, s = self.fns[f], self.fspec[f]
        m = dict(en=0, mme=0, a=[], data=0)
        x = dict(en=0, fm=0, table=[])
        if fn.msi_cap:
            c = fn.msi_cap
            m = dict(en=int(bool(c.msi_enable)), mme=int(c.msi_multiple_message_enable), a=limbs(c.msi_message_address), data=int(c.msi_message_data))
        if fn.msix_cap:
            c = fn.msix_cap
            x["en"], x["fm"] = int(bool(c.msix_enable)), int(bool(c.msix_function_mask))
            for k in range(s["msix"]["n"]):
                a, d, v = self.entry(f, k)
                x["table"].append([limbs(a), d, v])
        return dict(msi=m, msix=x)

    def entry(self, f, k):
        s = self.fspec[f]["msix"]
        mem = self.fns[f].bars[s["bar"]][2]
        o = s.get("off", 0) + 16 * k
        return struct.unpack("<QLL", bytes(mem[o:o + 16]))

    async def op_alloc(self, s):
        d = self.dev(s["f"])
        if s["api"] == "msi":
            rc = await d.enable_msi_range(s["lo"], s["hi"])
        elif s["api"] == "msix":
            rc = await d.enable_msix_range(s["lo"], s["hi"], 0)
        else:
            rc = await d.alloc_irq_vectors(s["lo"], s["hi"])
        self.log("alloc", f=s["f"], api=s["api"], lo=s["lo"], hi=s["hi"], rc=rc, vecs=[[limbs(v.addr), v.data] for v in d.msi_vectors], **await self.regs(s["f"]))
        for k, v in enumerate(d.msi_vectors):
            if id(v) not in self.watched:
                self.watched.add(id(v))
                self.vectors.append(v)
                if not self.scn.get("lazy"):        # otherwise nobody clears the event between two quiet points
                    cocotb.start_soon(self.watch(s["f"], k, v))

    async def watch(self, f, k, v):
        while True:
            await v.event.wait()
            v.event.clear()
            self.log("evt", a=limbs(v.addr), d=v.data)

    async def op_free(self, s):
        await self.dev(s["f"]).free_irq_vectors()
        await Timer(100, "ns")
        self.log("free", f=s["f"], **await self.regs(s["f"]))

    async def op_req(self, s):
        d = self.dev(s["f"])
        if s["k"] >= len(d.msi_vectors):
            return
        h = self.nh
        self.nh += 1

        async def handler():
            self.log("irq", h=h)
        self.log("req", f=s["f"], k=s["k"], h=h)
        d.request_irq(s["k"], handler)

    async def op_sig(self, s):
        fn, f, k = self.fns[s["f"]], s["f"], s["k"]
        at, tc = TlpAttr(s.get("at", 0)), TlpTc(s.get("tc", 0))
        if s["api"] == "msix":
            if k >= self.fspec[f]["msix"]["n"]:
                return
            a, d, v = self.entry(f, k)
        self.log("sig", f=f, k=k, api=s["api"])
        try:
            if s["api"] == "msix":
                await fn.msix_cap.issue_msix_interrupt(a, d, attr=at, tc=tc)
            else:
                await fn.msi_cap.issue_msi_interrupt(k, attr=at, tc=tc)
            ok = 1
        except Exception:
            ok = 0
        self.log("sigret", f=f, k=k, api=s["api"], ok=ok)

    def mreg(self, f):
        return 12 + 4 * bool(self.fns[f].msi_cap.msi_64bit_address_capable)

    async def op_mask(self, s):
        self.log("mask", f=s["f"], m=[k for k in range(32) if s["m"] >> k & 1])
        await self.dev(s["f"]).capability_write_dword(PciCapId.MSI, self.mreg(s["f"]), s["m"])

    async def op_pend(self, s):
        v = await self.dev(s["f"]).capability_read_dword(PciCapId.MSI, self.mreg(s["f"]) + 4)
        self.log("pend", f=s["f"], m=[k for k in range(32) if v >> k & 1])

    async def op_quiet(self, s):
        await Timer(3000, "ns")
        lazy = bool(self.scn.get("lazy"))
        seen = [v for v in self.vectors if v.event.is_set()]
        self.log("quiet", lazy=lazy, set=[[limbs(v.addr), v.data] for v in seen])
        for v in seen:
            v.event.clear()


async def run(dut, scn, log):
    e = MsiEnv(scn, log)
    e.events = set()
    e.build()
    log("fns", fns=[dict(f=f, msi=s.get("msi") is not None, mmc=(s.get("msi") or {}).get("mmc", 0), pvm=bool((s.get("msi") or {}).get("pvm", 1)) and s.get("msi") is not None,
                         nx=(s.get("msix") or {}).get("n", 0)) for f, s in e.fspec.items()])
    await e.steps(scn["steps"])
    log("end")
