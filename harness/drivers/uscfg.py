"""Management, status, flow control and interrupt interfaces of the UltraScale device models."""
import cocotb
from cocotb.triggers import RisingEdge, Timer, Combine, Event
from cocotbext.pcie.core.tlp import Tlp, CplStatus
from cocotbext.pcie.core.utils import PcieId
from common import cls_of
from drivers.usdev import Env, hdr, b8
import drivers.usdev as usdev

EN = ("PM", "EXP", "MSI", "MSIX", "AER", "EXP2")


def bits(v):
    v = int(v)
    return [k for k in range(v.bit_length()) if v >> k & 1]


def le(v, n=4):
    return list(int(v).to_bytes(n, "little"))


class CfgEnv(Env):
    STATUS = dict(u=["cfg_phy_link_down", "user_lnk_up", "user_reset", "cfg_negotiated_width", "cfg_current_speed", "cfg_max_payload", "cfg_max_read_req", "cfg_function_status",
                     "cfg_rcb_status", "cfg_interrupt_msi_enable", "cfg_interrupt_msi_mmenable", "cfg_interrupt_msi_data", "cfg_interrupt_msix_enable", "cfg_interrupt_msix_mask"])
    STATUS["p"] = STATUS["u"] + ["cfg_bus_number"]

    def make(self):
        super().make()
        self.setup = False
        self.kept, self.keep = [], False
        self.ups = None
        send = self.peer.send

        async def wrapped(t):
            self.act += 1
            self.log("dn", c=cls_of(t), n=len(t.data))
            await send(t)
        self.peer.send = wrapped
        for f in self.dev.functions:
            f.pcie_cap.current_link_speed, f.pcie_cap.negotiated_link_width = self.scn["link"]
            if self.scn.get("pvm"):
                f.msi_cap.msi_per_vector_mask_capable = 1

    def describe(self):
        scn, names = self.scn, self.scn["names"]

        def at(o, t):
            d = {}
            for n in names[t]:
                if "." in n:
                    a, i = n.split(".")
                    if int(i) < len(getattr(o, a)):
                        d[n] = bits(getattr(o, a)[int(i)])
                else:
                    d[n] = bits(getattr(o, n))
            return d
        for k, f in enumerate(self.dev.functions):
            caps = [("PM", f.pm_cap), ("EXP", f.pcie_cap), ("MSI", f.msi_cap), ("MSIX", f.msix_cap), ("AER", f.aer_ext_cap), ("EXP2", f.pcie_ext_cap)]
            on = {"PM", "EXP", "AER", "EXP2"} | ({"MSI"} if scn["fnpar"][k]["msi"] else set()) | ({"MSIX"} if scn["fnpar"][k]["msix"] else set())
            self.log("fn", f=k, k="ep", rom=0, at=dict(at(f, "FN"), **at(f, "T0")),
                     bars=[dict(i=b["i"], lg=(b["size"] - 1).bit_length(), ext=bool(b.get("ext")), pf=bool(b.get("pf")), io=bool(b.get("io"))) for b in scn["bars"][k]],
                     caps=[dict(ty=t, off=c.offset, len=c.length, at=at(c, t), a64=bool(getattr(c, "msi_64bit_address_capable", 0)), pvm=bool(getattr(c, "msi_per_vector_mask_capable", 0)),
                                xd=bool(getattr(c, "msi_extended_message_data_capable", 0))) for t, c in caps if t in on],
                     par=scn["fnpar"][k])
        i = self.peer.fc_state[0]
        self.log("link", fam=self.fam, bus=0, rx=[x.tx_initial_allocation for x in (i.ph, i.pd, i.nph, i.npd, i.cplh, i.cpld)],
                 tx=[x.rx_initial_allocation for x in (i.ph, i.pd, i.nph, i.npd, i.cplh, i.cpld)], mps=scn.get("mps", 128),
                 **getattr(self, "more", {}))

    async def peer_recv(self, tlp):
        t = Tlp(tlp)
        self.act += 1
        c = cls_of(t)
        self.log("up", c=c, n=len(t.data))
        if self.ups is not None and c == "P":
            self.ups.append(t)
        if self.keep and c != "CPL":
            self.kept.append((tlp, t))
        else:
            self.release(tlp, t)
        if c == "CPL" and t.tag in self.cfgc:
            self.cfgc.pop(t.tag).set(t)
        elif c == "NP":
            self.seen.append(t)
            self.wakeup.set()

    def release(self, tlp, t):
        tlp.release_fc()
        self.log("rel", c=cls_of(t), n=len(t.data))

    async def op_keep(self, v):
        self.keep = bool(v)
        if not v:
            for x in self.kept:
                self.release(*x)
            self.kept = []

    # ------------------------------------------------------------------ configuration accesses
    async def op_acc(self, w, fn, reg, be=15, data=0, bus=None, tag=200):
        t = await self.cfg(w, fn, reg * 4, data, be, tag=tag, bus=bus)
        v = int.from_bytes(t.data, "little") if t.data else 0
        self.log("acc", via="link", w=w, f=fn, r=reg, en=bits(be), data=bits(data if w else v), st=int(t.status), bus=self.scn["bus"] if bus is None else bus)

    async def op_mgmt(self, w, fn, reg, be=15, data=0):
        s, clk = self.s, self.user_clk
        if self.fam == "u":
            s("cfg_mgmt_addr").value = fn << 10 | reg
        else:
            s("cfg_mgmt_addr").value = reg
            s("cfg_mgmt_function_number").value = fn
        s("cfg_mgmt_write_data").value = data
        s("cfg_mgmt_byte_enable").value = be
        s("cfg_mgmt_write").value = int(w)
        s("cfg_mgmt_read").value = int(not w)
        n = 0
        while True:
            await RisingEdge(clk)
            n += 1
            if int(s("cfg_mgmt_read_write_done").value) or n > 200:
                break
        v = int(s("cfg_mgmt_read_data").value)
        s("cfg_mgmt_write").value = 0
        s("cfg_mgmt_read").value = 0
        s("cfg_mgmt_write_data").value = self.g.getrandbits(32)
        self.log("acc", via="mgmt", w=w, f=fn, r=reg, en=bits(be), data=bits(data if w else v), st=0 if n <= 200 else 1, bus=0)
        await RisingEdge(clk)
        self.log("mgmt_idle", done=int(s("cfg_mgmt_read_write_done").value))

    # ------------------------------------------------------------------ interrupts
    async def op_msi(self, fn, vec, attr=0, x=None, block=0):
        s, clk = self.s, self.user_clk
        k = "msi" if x is None else "msix"
        self.ups = []
        s("cfg_interrupt_msi_function_number").value = fn
        s("cfg_interrupt_msi_attr").value = attr
        if x is None:
            s("cfg_interrupt_msi_int").value = vec
        else:
            s("cfg_interrupt_msix_address").value = x[0]
            s("cfg_interrupt_msix_data").value = x[1]
            s("cfg_interrupt_msix_int").value = 1
        await RisingEdge(clk)
        s("cfg_interrupt_msi_int").value = 0
        s("cfg_interrupt_msix_int").value = 0
        s("cfg_interrupt_msi_attr").value = self.g.randrange(8)
        s("cfg_interrupt_msi_function_number").value = self.g.randrange(4)
        n = [0, 0, 0, 0]
        for i in range(120 + block):
            await RisingEdge(clk)
            for j, y in enumerate(("msi_sent", "msi_fail", "msix_sent", "msix_fail")):
                n[j] += int(s("cfg_interrupt_" + y).value)
            if block and i == block:
                await self.op_keep(0)
        m, self.ups = self.ups, None
        self.log("int", k=k, f=fn, vec=bits(vec), attr=attr, a=b8(x[0] if x else 0), d=le(x[1] if x else 0), n=n,
                 out=[dict(t=t.fmt_type.name, a=b8(t.address), d=list(t.data), n=t.length, fbe=int(t.first_be), lbe=int(t.last_be), attr=int(t.attr), tc=int(t.tc), rid=int(t.requester_id)) for t in m])

    async def op_pend(self, fn, v):
        s = self.s
        s("cfg_interrupt_msi_pending_status").value = v
        s("cfg_interrupt_msi_pending_status_function_num").value = fn
        s("cfg_interrupt_msi_pending_status_data_enable").value = 1
        await RisingEdge(self.user_clk)
        s("cfg_interrupt_msi_pending_status_data_enable").value = 0
        s("cfg_interrupt_msi_pending_status").value = self.g.getrandbits(32)
        await RisingEdge(self.user_clk)
        await RisingEdge(self.user_clk)
        self.log("pend", f=fn, v=bits(v))

    # ------------------------------------------------------------------ status
    async def op_st(self, sel=0):
        self.s("cfg_interrupt_msi_select").value = sel
        for _ in range(4):
            await RisingEdge(self.user_clk)
        o = {}
        for n in self.STATUS[self.fam]:
            if n not in self.scn.get("off", []):
                h = self.s(n) if not (n == "cfg_max_payload" and self.fam == "p") else self.dut.p_cfg_max_payload
                o[n] = int(h.value) if n != "cfg_interrupt_msi_data" else bits(int(h.value))
        self.log("st", sel=sel, o=o, names=sorted(o))

    async def op_fc(self, sels):
        await self.op_settle()
        for x in sels:
            self.s("cfg_fc_sel").value = x
            for _ in range(3):
                await RisingEdge(self.user_clk)
            self.log("fc", sel=x, v=[int(self.s("cfg_fc_" + n).value) for n in ("ph", "pd", "nph", "npd", "cplh", "cpld")])

    async def op_reset(self, v):
        self.s("sys_reset").value = v
        self.log("reset", v=v)
        for _ in range(80):
            await RisingEdge(self.user_clk)

    async def op_par(self, ops):
        for t in [cocotb.start_soon(getattr(self, "op_" + o[0])(*o[1:])) for o in ops]:
            await t.join()


async def run(dut, scn, log):
    e = CfgEnv(dut, scn, log)
    e.make()
    e.s("pcie_cq_np_req").setimmediatevalue(1)
    await Timer(300, "ns")
    await RisingEdge(e.user_clk)
    cocotb.start_soon(e.rc_reader())
    cocotb.start_soon(e.cq_reader())
    cocotb.start_soon(e.auto_cpl())
    cocotb.start_soon(e.auto_cc())
    e.describe()
    for op in scn["ops"]:
        await getattr(e, "op_" + op[0])(*op[1:])
    log("end")
