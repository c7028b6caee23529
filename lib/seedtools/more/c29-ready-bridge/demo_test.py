import cocotb, random
from cocotb.triggers import Timer, Event, First
from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device, Switch
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, CplStatus
from cocotbext.pcie.core.port import SimPort, FcChannelState
from cocotbext.pcie.core.utils import PcieId


async def build(bars=((65536, {}),), n=1, switch=False, **kw):
    """Root complex with n memory endpoints, enumerated and enabled."""
    rc = RootComplex(**kw)
    eps, sw = [], None
    if switch:
        sw = Switch()
        rc.make_port().connect(sw)
    for k in range(n):
        ep = MemoryEndpoint()
        ep.mems = [ep.add_region(s, **a) for s, a in bars]
        dev = Device(ep)
        (sw.make_port() if sw else rc.make_port()).connect(dev)
        eps.append(ep)
    await rc.enumerate()
    for ep in eps:
        d = rc.find_device(ep.pcie_id)
        await d.enable_device()
        await d.set_master()
    return rc, eps, sw


@cocotb.test()
async def order(dut):
    rc = RootComplex()
    ep = MemoryEndpoint()
    ep.add_region(4096)
    rc.make_port().connect(Device(ep))
    await rc.enumerate()
    d = rc.find_device(ep.pcie_id)
    b = d.upstream_bridge()
    await b.enable_device()
    assert not (await b.config_read_word(4)) & 4
    await d.enable_device()
    assert (await b.config_read_word(4)) & 7 == 7
    assert (await d.config_read_word(4)) & 3 == 3
