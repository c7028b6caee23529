import cocotb, random
from cocotb.triggers import Timer, Event, First
from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device, Switch
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, CplStatus
from cocotbext.pcie.core.port import SimPort, FcChannelState
from cocotbext.pcie.core.utils import PcieId


async def build(bars=((65536, {}),), n=1, switch=False, **kw):
    """Root complex with n memory endpoints, enumerated and enabled."""
    rc = RootComplex(**kw)
    eps, sw = [], None
    if switch:
        sw = Switch()
        rc.make_port().connect(sw)
    for k in range(n):
        ep = MemoryEndpoint()
        ep.mems = [ep.add_region(s, **a) for s, a in bars]
        dev = Device(ep)
        (sw.make_port() if sw else rc.make_port()).connect(dev)
        eps.append(ep)
    await rc.enumerate()
    for ep in eps:
        d = rc.find_device(ep.pcie_id)
        await d.enable_device()
        await d.set_master()
    return rc, eps, sw


@cocotb.test()
async def rcb(dut):
    rc, (ep,), _ = await build()
    got = []
    recv = ep.upstream_send

    async def tap(tlp):
        got.append((tlp.lower_address, tlp.byte_count, tlp.length))
        await recv(tlp)
    ep.upstream_send = tap
    a = ep.bar[0] & ~0xf
    rc.max_read_request_size = 5
    await rc.mem_read(a+0x48, 600)
    for la, bc, n in got:
        end = (la & 0x7c) + 4*n
        assert n*4-(la & 3) >= bc or end % 128 == 0, got
