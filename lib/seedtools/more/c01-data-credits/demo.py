import sys
from cocotbext.pcie.core.tlp import Tlp, TlpType
t = Tlp()
t.fmt_type = TlpType.MEM_WRITE
for dw in range(1, 1025):
    t.set_data(bytes(4*dw))
    if t.get_data_credits() != -(-dw // 4):
        print("payload of", dw, "dwords accounted as", t.get_data_credits(), "credits")
        sys.exit(1)
