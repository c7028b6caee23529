import cocotb
from cocotb.triggers import Timer
from cocotbext.pcie.core.port import SimPort
from cocotbext.pcie.core.tlp import Tlp, TlpType


@cocotb.test()
async def release_twice(dut):
    a = SimPort(fc_init=[[4, 64, 4, 64, 4, 64]]*8)
    b = SimPort(fc_init=[[4, 64, 4, 64, 4, 64]]*8)
    got = []

    async def h(t):
        got.append(t)
    b.rx_handler = h
    a.rx_handler = h
    a.connect(b)
    t = Tlp()
    t.fmt_type = TlpType.MEM_READ
    t.length = 1
    await a.send(t)
    await Timer(5, "us")
    got[0].release_fc()
    got[0].release_fc()
    await Timer(50, "us")
    assert a.fc_state[0].nph.tx_credits_available == 4
