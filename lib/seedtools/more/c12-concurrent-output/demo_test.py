import cocotb, random
from cocotb.triggers import Timer, Event, First
from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device, Switch
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, CplStatus
from cocotbext.pcie.core.port import SimPort, FcChannelState
from cocotbext.pcie.core.utils import PcieId


async def build(bars=((65536, {}),), n=1, switch=False, **kw):
    """Root complex with n memory endpoints, enumerated and enabled."""
    rc = RootComplex(**kw)
    eps, sw = [], None
    if switch:
        sw = Switch()
        rc.make_port().connect(sw)
    for k in range(n):
        ep = MemoryEndpoint()
        ep.mems = [ep.add_region(s, **a) for s, a in bars]
        dev = Device(ep)
        (sw.make_port() if sw else rc.make_port()).connect(dev)
        eps.append(ep)
    await rc.enumerate()
    for ep in eps:
        d = rc.find_device(ep.pcie_id)
        await d.enable_device()
        await d.set_master()
    return rc, eps, sw


@cocotb.test()
async def order(dut):
    rc = RootComplex()
    sw = Switch()
    rc.make_port().connect(sw)
    ep = MemoryEndpoint()
    ep.add_region(65536)
    dev = Device(ep)
    p = dev.upstream_port
    p.fc_state = [FcChannelState([1, 8, 1, 1, 0, 0], p.start_fc_update_timer) for k in range(8)]
    p.fc_state[0].active = True
    sw.make_port().connect(dev)
    await rc.enumerate()
    await rc.find_device(ep.pcie_id).enable_device()
    got = []
    rng = random.Random(1)

    async def tap(tlp):
        await Timer(rng.choice([0, 1, 300]), "ns")
        got.append(tlp.get_data()[0])
        tlp.release_fc()
    ep.register_rx_tlp_handler(TlpType.MEM_WRITE, tap)
    base = ep.bar[0] & ~0xf
    for k in range(100):
        await rc.mem_write(base+256*k, bytes([k])*(4 if k % 3 else 128))
    await Timer(200, "us")
    assert got == list(range(100)), got
