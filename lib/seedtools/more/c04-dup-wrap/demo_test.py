import cocotb
from cocotb.triggers import Timer
from cocotbext.pcie.core.port import Port
from cocotbext.pcie.core.tlp import Tlp, TlpType
from cocotbext.pcie.core.dllp import Dllp, DllpType


class P(Port):
    def __init__(self):
        self.out = []
        super().__init__()

    async def handle_tx(self, pkt):
        self.out.append(pkt)
        await Timer(10, "ns")


@cocotb.test()
async def dup_after_wrap(dut):
    p = P()
    got = []

    async def h(t):
        got.append(t.seq)
    p.rx_handler = h

    def mk(seq):
        t = Tlp()
        t.fmt_type = TlpType.MEM_READ
        t.length = 1
        t.seq = seq
        return t
    for k in range(4098):
        await p.ext_recv(mk(k % 4096))
        if k % 64 == 0:
            await Timer(1, "ns")
    await Timer(1, "us")
    n = len(got)
    p.out.clear()
    await p.ext_recv(mk(4095))      # repeated TLP from before the wrap
    await Timer(1, "us")
    assert len(got) == n
    kinds = [x.type for x in p.out if isinstance(x, Dllp)]
    assert DllpType.NAK not in kinds
    assert DllpType.ACK in kinds
