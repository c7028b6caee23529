from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpTc
for tc in range(8):
    for tag in (0, 5, 0x100, 0x200, 0x3ff):
        t = Tlp()
        t.fmt_type = TlpType.MEM_READ
        t.length = 1
        t.tc = TlpTc(tc)
        t.tag = tag
        u = Tlp.unpack(t.pack())
        assert u.tag == tag and u == t, (tc, tag, u.tag)
