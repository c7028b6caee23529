import cocotb, random
from cocotb.triggers import Timer, Event, First
from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device, Switch
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, CplStatus
from cocotbext.pcie.core.port import SimPort, FcChannelState
from cocotbext.pcie.core.utils import PcieId


async def build(bars=((65536, {}),), n=1, switch=False, **kw):
    """Root complex with n memory endpoints, enumerated and enabled."""
    rc = RootComplex(**kw)
    eps, sw = [], None
    if switch:
        sw = Switch()
        rc.make_port().connect(sw)
    for k in range(n):
        ep = MemoryEndpoint()
        ep.mems = [ep.add_region(s, **a) for s, a in bars]
        dev = Device(ep)
        (sw.make_port() if sw else rc.make_port()).connect(dev)
        eps.append(ep)
    await rc.enumerate()
    for ep in eps:
        d = rc.find_device(ep.pcie_id)
        await d.enable_device()
        await d.set_master()
    return rc, eps, sw


@cocotb.test()
async def size(dut):
    async def rd(addr, length):
        return bytes(length)

    async def wr(addr, data):
        pass
    rc, eps, _ = await build(bars=((1 << 34, dict(read=rd, write=wr, ext=True, prefetch=True)), (65536, dict(ext=True, prefetch=True))), n=2)
    r = []
    for ep in eps:
        for b, s in ((0, 1 << 34), (2, 65536)):
            a = (ep.bar[b] & ~0xf) | ep.bar[b+1] << 32
            assert a % s == 0
            r.append((a, a+s))
    r.sort()
    assert all(x[1] <= y[0] for x, y in zip(r, r[1:])), r
