import cocotb, random
from cocotb.triggers import Timer, Event, First
from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device, Switch
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, CplStatus
from cocotbext.pcie.core.port import SimPort, FcChannelState
from cocotbext.pcie.core.utils import PcieId


async def build(bars=((65536, {}),), n=1, switch=False, **kw):
    """Root complex with n memory endpoints, enumerated and enabled."""
    rc = RootComplex(**kw)
    eps, sw = [], None
    if switch:
        sw = Switch()
        rc.make_port().connect(sw)
    for k in range(n):
        ep = MemoryEndpoint()
        ep.mems = [ep.add_region(s, **a) for s, a in bars]
        dev = Device(ep)
        (sw.make_port() if sw else rc.make_port()).connect(dev)
        eps.append(ep)
    await rc.enumerate()
    for ep in eps:
        d = rc.find_device(ep.pcie_id)
        await d.enable_device()
        await d.set_master()
    return rc, eps, sw


@cocotb.test()
async def hole(dut):
    rc, (ep,), _ = await build()
    a = ep.bar[0] & ~0xf
    ep.mems[0][0:8] = bytes([0xee]*8)
    t = Tlp()
    t.fmt_type = TlpType.MEM_WRITE
    t.requester_id = PcieId(0, 0, 0)
    t.set_addr_be_data(a, b"\1\2\3\4")
    t.first_be = 0b1101
    await rc.send(t)
    await Timer(5, "us")
    assert bytes(ep.mems[0][0:8]) == bytes([1, 0xee, 3, 4, 0xee, 0xee, 0xee, 0xee]), bytes(ep.mems[0][0:8])
