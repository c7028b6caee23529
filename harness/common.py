"""Shared helpers of the harness drivers: TLP projection and construction."""
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpAt, TlpTc, CplStatus
from cocotbext.pcie.core.dllp import Dllp, DllpType, FcType
from cocotbext.pcie.core.utils import PcieId

FIELDS = ("fmt", "type", "tc", "ln", "th", "td", "ep", "attr", "at", "length", "completer_id", "status", "bcm", "byte_count",
          "requester_id", "tag", "first_be", "last_be", "lower_address", "address", "ph")


def snap(t):
    return tuple(int(getattr(t, f)) for f in FIELDS) + (bytes(t.data),)


CLS = {FcType.P: "P", FcType.NP: "NP", FcType.CPL: "CPL"}
# class of a TLP by its format and type fields, independent of the tables in the code under test
_NP = {"MEM_READ", "MEM_READ_64", "MEM_READ_LOCKED", "MEM_READ_LOCKED_64", "IO_READ", "IO_WRITE", "CFG_READ_0", "CFG_WRITE_0",
       "CFG_READ_1", "CFG_WRITE_1", "FETCH_ADD", "FETCH_ADD_64", "SWAP", "SWAP_64", "CAS", "CAS_64"}
_CPL = {"CPL", "CPL_DATA", "CPL_LOCKED", "CPL_LOCKED_DATA"}


def cls_of(t):
    n = t.fmt_type.name
    return "NP" if n in _NP else "CPL" if n in _CPL else "P"


DK = {DllpType.INIT_FC1_P: ("I1", "P"), DllpType.INIT_FC1_NP: ("I1", "NP"), DllpType.INIT_FC1_CPL: ("I1", "CPL"),
      DllpType.INIT_FC2_P: ("I2", "P"), DllpType.INIT_FC2_NP: ("I2", "NP"), DllpType.INIT_FC2_CPL: ("I2", "CPL"),
      DllpType.UPDATE_FC_P: ("U", "P"), DllpType.UPDATE_FC_NP: ("U", "NP"), DllpType.UPDATE_FC_CPL: ("U", "CPL"),
      DllpType.ACK: ("ACK", ""), DllpType.NAK: ("NAK", "")}
KD = {v: k for k, v in DK.items()}


def dllp_ev(d):
    k, c = DK.get(d.type, ("OTHER", ""))
    return dict(k=k, c=c, h=int(d.hdr_fc), d=int(d.data_fc), seq=int(d.seq), vc=int(d.vc))


def limbs(v, n=4):
    """64-bit value as 16-bit limbs, most significant first (TLC integers are 32 bit)."""
    return [(v >> (16 * (n - 1 - i))) & 0xffff for i in range(n)]
