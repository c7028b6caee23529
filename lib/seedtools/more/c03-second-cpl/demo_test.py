import cocotb
from cocotb.triggers import Timer
from cocotbext.pcie.core.port import SimPort
from cocotbext.pcie.core.dllp import Dllp, DllpType


class Lossy(SimPort):
    """loses the first InitFC1-P it sends"""
    lost = 0

    async def handle_tx(self, pkt):
        if isinstance(pkt, Dllp) and pkt.type == DllpType.INIT_FC1_P and not self.lost:
            self.lost = 1
            return await Timer(10, "ns")
        await super().handle_tx(pkt)


@cocotb.test()
async def loss(dut):
    a = SimPort(fc_init=[[4, 64, 4, 64, 4, 64]]*8)
    b = Lossy(fc_init=[[3, 40, 2, 30, 5, 60]]*8)
    a.connect(b)
    await Timer(20, "us")
    assert a.fc_initialized
    assert a.fc_state[0].ph.tx_credits_available == 3
    assert a.fc_state[0].pd.tx_credits_available == 40
    assert not a.fc_state[0].ph.tx_is_infinite()
