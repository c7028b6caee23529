import cocotb, random
from cocotb.triggers import Timer, Event, First
from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device, Switch
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, CplStatus
from cocotbext.pcie.core.port import SimPort, FcChannelState
from cocotbext.pcie.core.utils import PcieId


async def build(bars=((65536, {}),), n=1, switch=False, **kw):
    """Root complex with n memory endpoints, enumerated and enabled."""
    rc = RootComplex(**kw)
    eps, sw = [], None
    if switch:
        sw = Switch()
        rc.make_port().connect(sw)
    for k in range(n):
        ep = MemoryEndpoint()
        ep.mems = [ep.add_region(s, **a) for s, a in bars]
        dev = Device(ep)
        (sw.make_port() if sw else rc.make_port()).connect(dev)
        eps.append(ep)
    await rc.enumerate()
    for ep in eps:
        d = rc.find_device(ep.pcie_id)
        await d.enable_device()
        await d.set_master()
    return rc, eps, sw


@cocotb.test()
async def mps(dut):
    rc, (ep,), _ = await build()
    lens = []
    send = ep.upstream_send

    async def tap(tlp):
        lens.append(tlp.length)
        await send(tlp)
    ep.upstream_send = tap
    mem = rc.mem_pool.alloc_region(4096)
    base = mem.get_absolute_address(0)
    for o in range(4):
        await ep.mem_write(base+o, bytes(700))
    await Timer(5, "us")
    assert max(lens) <= 32 << ep.pcie_cap.max_payload_size, lens
