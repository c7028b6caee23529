import cocotb, random
from cocotb.triggers import Timer, Event, First
from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device, Switch
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, CplStatus
from cocotbext.pcie.core.port import SimPort, FcChannelState
from cocotbext.pcie.core.utils import PcieId


async def build(bars=((65536, {}),), n=1, switch=False, **kw):
    """Root complex with n memory endpoints, enumerated and enabled."""
    rc = RootComplex(**kw)
    eps, sw = [], None
    if switch:
        sw = Switch()
        rc.make_port().connect(sw)
    for k in range(n):
        ep = MemoryEndpoint()
        ep.mems = [ep.add_region(s, **a) for s, a in bars]
        dev = Device(ep)
        (sw.make_port() if sw else rc.make_port()).connect(dev)
        eps.append(ep)
    await rc.enumerate()
    for ep in eps:
        d = rc.find_device(ep.pcie_id)
        await d.enable_device()
        await d.set_master()
    return rc, eps, sw


class Slow(MemoryEndpoint):
    crs = 0

    async def handle_config_0_read_tlp(self, tlp):
        if self.crs:
            self.crs -= 1
            tlp.release_fc()
            return await self.upstream_send(Tlp.create_crs_completion_for_tlp(tlp, self.pcie_id))
        await super().handle_config_0_read_tlp(tlp)


@cocotb.test()
async def retry(dut):
    rc = RootComplex()
    ep = Slow()
    rc.make_port().connect(Device(ep))
    await rc.enumerate()
    ep.crs = 2
    assert await rc.config_read_dword(ep.pcie_id, 8, timeout=100, timeout_unit="us") != 0xffff0001
