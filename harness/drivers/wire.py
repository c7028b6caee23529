"""Packets packed, parsed, copied and compared by the real code."""
import random
from cocotb.triggers import Timer
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpAt, TlpTc, CplStatus
from cocotbext.pcie.core.dllp import Dllp, DllpType, FcScale
from cocotbext.pcie.core.utils import PcieId
from cocotbext.pcie.xilinx.us.tlp import Tlp_us, ErrorCode
from common import CLS

MAP = dict(tc="tc", ln="ln", th="th", td="td", ep="ep", attr="attr", at="at", length="length", cid="completer_id", status="status", bcm="bcm",
           bc="byte_count", rid="requester_id", tag="tag", fbe="first_be", lbe="last_be", la="lower_address", ph="ph")
CONV = dict(tc=TlpTc, ln=bool, th=bool, td=bool, ep=bool, bcm=bool, attr=TlpAttr, at=TlpAt, status=CplStatus, cid=PcieId.from_int, rid=PcieId.from_int)
USMAP = dict(bar="bar_id", ap="bar_aperture", disc="discontinue", rie="requester_id_enable", cie="completer_id_enable", seqn="seq_num", err="error_code", rqc="request_completed")


def b8(v):
    return [(v >> (56 - 8 * i)) & 255 for i in range(8)]


def n8(b):
    return int.from_bytes(bytes(b), "big")


def build(f, cls=Tlp):
    t = cls()
    t.fmt_type = TlpType[f["t"]]
    for a, b in MAP.items():
        setattr(t, b, CONV[a](f[a]) if a in CONV else f[a])
    t.address = n8(f["addr"])
    t.data = bytearray(f["data"])
    if cls is Tlp_us:
        for a, b in USMAP.items():
            v = f[a]
            setattr(t, b, bool(v) if a in ("disc", "rie", "cie", "rqc") else ErrorCode(v) if a == "err" else v)
    return t


def fields(t):
    o = {a: int(getattr(t, b)) for a, b in MAP.items()}
    o.update(t=t.fmt_type.name, addr=b8(t.address), data=list(t.data))
    if isinstance(t, Tlp_us):
        o.update({a: (int(bool(getattr(t, b))) if a in ("disc", "rie", "cie", "rqc") else int(getattr(t, b))) for a, b in USMAP.items()})
    return o


def flips(t, base=False):
    """copies of a packet that differ in one field"""
    for a, b in MAP.items():
        u = type(t)(t)
        v = int(getattr(t, b))
        if a in ("ln", "th", "td", "ep", "bcm"):
            w = not v
        elif a == "at":
            w = TlpAt((v + 1) % 3)
        elif a == "status":
            w = CplStatus.UR if v != 1 else CplStatus.SC
        elif a in ("cid", "rid"):
            w = PcieId.from_int(v ^ 256)
        elif a == "attr":
            w = TlpAttr(v ^ 4)
        elif a == "tc":
            w = TlpTc(v ^ 2)
        else:
            w = v ^ 1
        setattr(u, b, w)
        yield a, u
    u = type(t)(t)
    u.address ^= 0x100
    yield "addr", u
    u = type(t)(t)
    u.type ^= 1
    yield "type", u
    u = type(t)(t)
    u.fmt ^= 2
    yield "fmt", u
    u = type(t)(t)
    if len(u.data):
        u.data[0] ^= 1
    else:
        u.data = bytearray(4)
    yield "data", u


def dbuild(f):
    d = Dllp()
    d.type = DllpType[f["t"]]
    d.seq, d.vc, d.hdr_fc, d.data_fc, d.feature_support, d.feature_ack = f["seq"], f["vc"], f["h"], f["d"], f["fs"], bool(f["fa"])
    d.hdr_scale, d.data_scale = FcScale(f["hs"]), FcScale(f["ds"])
    return d


def dfields(d):
    return dict(t=d.type.name, seq=int(d.seq), vc=int(d.vc), hs=int(d.hdr_scale), h=int(d.hdr_fc), ds=int(d.data_scale), d=int(d.data_fc), fs=int(d.feature_support), fa=int(d.feature_ack))


DM = dict(seq="seq", vc="vc", hs="hdr_scale", h="hdr_fc", ds="data_scale", d="data_fc", fs="feature_support", fa="feature_ack")


async def run(dut, scn, log):
    for it in scn["items"]:
        op = it["op"]
        if op == "tlp":
            f = it["f"]
            t = build(f)
            before = fields(t)
            raw = bytes(t.pack())
            hdr = bytes(t.pack_header())
            u = Tlp.unpack(raw)
            c = Tlp(t)
            cf = fields(c)
            if len(c.data):
                c.data[0] ^= 255
            mut = int(fields(t) != before)
            log("tlp", f=f, bytes=list(raw), hdr=list(hdr), u=fields(u), same=int(u == t and t == u), diff=int(fields(u) != f), copied=int(Tlp(t) == t), cf=cf, mut=mut,
                blind=[a for a, m in flips(t) if m == t], cls=CLS[t.get_fc_type()], hasdata=int(t.has_data()),
                size=[t.get_header_size(), t.get_header_size_dw(), t.get_payload_size(), t.get_payload_size_dw(), t.get_size(), t.get_size_dw(), t.get_wire_size(), t.get_data_credits()])
        elif op == "raw":
            t = Tlp.unpack(bytes(it["bytes"]))
            log("raw", bytes=it["bytes"], u=fields(t), re=list(t.pack()))
        elif op == "chk":
            f = it["f"]
            t = build(f)
            t.data = bytearray(it["n"])
            import io, contextlib
            with contextlib.redirect_stdout(io.StringIO()):
                ok = t.check()
            log("chk", f=f, n=it["n"], ok=int(bool(ok)))
        elif op == "be":
            a, n = n8(it["a"]), it["n"]
            t = Tlp()
            t.fmt_type = TlpType.MEM_WRITE_64 if it["has"] else TlpType.MEM_READ_64
            d = list(range(1, 200)) * (n // 199 + 1)
            if it["has"]:
                t.set_addr_be_data(a, bytes(d[:n]))
            else:
                t.set_addr_be(a, n)
            log("be", a=it["a"], n=n, has=it["has"], d=d[:n] if it["has"] else [], addr=b8(t.address), len=t.length, fbe=t.first_be, lbe=t.last_be, bc=t.get_be_byte_count(), la=t.get_lower_address(),
                data=list(t.data) if it["has"] else [])
        elif op == "bes":
            t = Tlp()
            t.fmt_type = TlpType.MEM_READ
            t.length, t.first_be, t.last_be, t.address = it["len"], it["fbe"], it["lbe"], it["a"] & ~3
            log("bes", len=it["len"], fbe=it["fbe"], lbe=it["lbe"], a=it["a"] & 0x7c, bc=t.get_be_byte_count(), la=t.get_lower_address())
        elif op == "dllp":
            f = it["f"]
            d = dbuild(f)
            crc = bytes(d.pack_crc())
            u = Dllp.unpack_crc(crc)
            blind = []
            for a, b in DM.items():
                m = Dllp(d)
                setattr(m, b, type(getattr(d, b))(int(getattr(d, b)) ^ 1))
                if m == d:
                    blind.append(a)
            same = int(u == d and Dllp(d) == d and Dllp.unpack(d.pack()) == d)
            log("dllp", f=f, bytes=list(d.pack()), crc=list(crc), u=dfields(u), same=same, blind=blind, cls=CLS[d.get_fc_type()] if "FC" in f["t"] else "")
        elif op == "crc":
            try:
                Dllp.unpack_crc(bytes(it["bytes"]))
                ok = 1
            except Exception:
                ok = 0
            log("crc", bytes=it["bytes"], ok=ok)
        elif op == "desc":
            f, k = it["f"], it["k"]
            t = build(f, Tlp_us)
            fr = getattr(t, "pack_us_" + k)()
            un = getattr(Tlp_us, "unpack_us_" + k)
            u = un(fr, check_parity=True)
            bad = 1
            fr2 = type(fr)(fr)
            i = it["bad"] % len(fr.parity)
            fr2.parity[i] ^= 1 << (it["bad"] // 64 % 4)
            try:
                un(fr2, check_parity=True)
                bad = 0
            except AssertionError:
                pass
            c = Tlp_us(t)
            log("desc", k=k, f=f, frame=[[x >> 16, x & 0xffff] for x in fr.data], be=list(fr.byte_en), par=list(fr.parity), side=[fr.first_be, fr.last_be, int(fr.discontinue), fr.seq_num],
                u=fields(u), badpar=bad, same=int(c == t and fields(c) == fields(t)))
    await Timer(1, "ns")
    log("end")
