import cocotb, random
from cocotb.triggers import Timer, Event, First
from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device, Switch
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, CplStatus
from cocotbext.pcie.core.port import SimPort, FcChannelState
from cocotbext.pcie.core.utils import PcieId


async def build(bars=((65536, {}),), n=1, switch=False, **kw):
    """Root complex with n memory endpoints, enumerated and enabled."""
    rc = RootComplex(**kw)
    eps, sw = [], None
    if switch:
        sw = Switch()
        rc.make_port().connect(sw)
    for k in range(n):
        ep = MemoryEndpoint()
        ep.mems = [ep.add_region(s, **a) for s, a in bars]
        dev = Device(ep)
        (sw.make_port() if sw else rc.make_port()).connect(dev)
        eps.append(ep)
    await rc.enumerate()
    for ep in eps:
        d = rc.find_device(ep.pcie_id)
        await d.enable_device()
        await d.set_master()
    return rc, eps, sw


@cocotb.test()
async def abort(dut):
    rc, (ep,), _ = await build()
    base, mem = rc.alloc_io_region(4096)
    got = []
    recv = ep.upstream_recv

    async def bad(addr, data, **kw):
        raise Exception("broken")
    rc.io_address_space.write = bad

    async def tap(tlp):
        got.append(tlp.status)
        await recv(tlp)
    ep.upstream_recv = tap
    try:
        await ep.io_write(base, b"abcd", 5000)
    except Exception:
        pass
    assert got == [CplStatus.CA], got
