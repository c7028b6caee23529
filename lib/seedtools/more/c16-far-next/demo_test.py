import cocotb, random
from cocotb.triggers import Timer, Event, First
from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device, Switch
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, CplStatus
from cocotbext.pcie.core.port import SimPort, FcChannelState
from cocotbext.pcie.core.utils import PcieId


async def build(bars=((65536, {}),), n=1, switch=False, **kw):
    """Root complex with n memory endpoints, enumerated and enabled."""
    rc = RootComplex(**kw)
    eps, sw = [], None
    if switch:
        sw = Switch()
        rc.make_port().connect(sw)
    for k in range(n):
        ep = MemoryEndpoint()
        ep.mems = [ep.add_region(s, **a) for s, a in bars]
        dev = Device(ep)
        (sw.make_port() if sw else rc.make_port()).connect(dev)
        eps.append(ep)
    await rc.enumerate()
    for ep in eps:
        d = rc.find_device(ep.pcie_id)
        await d.enable_device()
        await d.set_master()
    return rc, eps, sw


from cocotbext.pcie.core.caps import PciExtCap, PciExtCapId


@cocotb.test()
async def far(dut):
    rc = RootComplex()
    ep = MemoryEndpoint()
    a, b = PciExtCap(), PciExtCap()
    a.cap_id, a.length = PciExtCapId.DSN, 3
    b.cap_id, b.length = PciExtCapId.VC, 4
    for c in (a, b):
        async def rd(reg):
            return 0
        c._read_register = rd
        c.cap_ver = 1
    ep.register_extended_capability(a)
    ep.register_extended_capability(b, 0x240)
    rc.make_port().connect(Device(ep))
    await rc.enumerate()
    d = rc.find_device(PcieId(1, 0, 0))
    assert d.get_capability_offset(PciExtCapId.VC) == 0x900
