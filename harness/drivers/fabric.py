"""Root complex + switches + endpoints with recording taps; scenario 'steps' drive it through the public interfaces.

Recorded events
  topo   static truth about the hierarchy           tree   the host's view after enumeration
  hw     register state of every function           w      TLP crossing link l (d=0 down, 1 up)
  snd    TLP leaving node f (0 = root complex)      rcv    TLP reaching node f
  call/ret  public access and its result            diff/mem  changes of / content of backing memories
"""
import asyncio, random, struct, zlib
import cocotb
from cocotb.triggers import Timer, Event, First, Combine
from cocotb.queue import Queue
from cocotbext.axi import MemoryRegion, Region
from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device, Switch
from cocotbext.pcie.core.port import SimPort
from cocotbext.pcie.core.caps import MsiCapability, MsixCapability, PciCapId, PciExtCapId
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, CplStatus
from cocotbext.pcie.core.utils import PcieId
from common import *

SHORT = {"MEM_READ": "MRd", "MEM_READ_64": "MRd64", "MEM_WRITE": "MWr", "MEM_WRITE_64": "MWr64", "IO_READ": "IORd", "IO_WRITE": "IOWr",
         "CFG_READ_0": "CfgRd0", "CFG_READ_1": "CfgRd1", "CFG_WRITE_0": "CfgWr0", "CFG_WRITE_1": "CfgWr1", "CPL": "Cpl", "CPL_DATA": "CplD"}


def tl(t, data=False):
    b = bytes(t.data)
    o = dict(ty=SHORT.get(t.fmt_type.name, t.fmt_type.name), rid=int(t.requester_id), tag=int(t.tag), cid=int(t.completer_id), st=int(t.status),
             bc=int(t.byte_count), la=int(t.lower_address), fb=int(t.first_be), lb=int(t.last_be), a=limbs(int(t.address)), n=int(t.length),
             tc=int(t.tc), at=int(t.attr), ep=int(bool(t.ep)), td=int(bool(t.td)), th=int(bool(t.th)), ln=int(bool(t.ln)), nb=len(b))
    h = zlib.crc32(b) if b else 0
    o["dg"] = [h >> 16, h & 0xffff]
    o["hd"] = hdr_digest(t)
    if data:
        o["by"] = list(b)
    return o


def dig(t):
    h = zlib.crc32(bytes(t.data)) if t.data else 0
    return dict(dg=[h >> 16, h & 0xffff], hd=hdr_digest(t))


def hdr_digest(t):
    """Digest of every header field (sequence number excluded; configuration requests compare equal across the type conversion)."""
    s = snap(t)
    ty = s[1]
    if t.fmt_type.name.startswith("CFG_"):
        ty = 4
    h = zlib.crc32(repr((s[0], ty) + s[2:-1]).encode())
    return [h >> 16, h & 0xffff]


FORMS = {1: ("byte", None), 2: ("word", "words"), 4: ("dword", "dwords"), 8: ("qword", "qwords")}


def typed(s, n):
    """Word size, byte order and form (0: bytes, 1: single word, 2: list of words, 3: word size as an argument) of an access; word size 0: plain bytes."""
    if "h" not in s or n <= 0:
        return 0, 0, 0
    ws, big, form = s["h"]
    if ws == 0 or n % ws:
        return 0, 0, 0
    if n != ws and form == 1:
        form = 2
    if ws == 1:
        form = 1 if n == 1 else 3
    if ws not in FORMS:
        form = 3
    return ws, big, form


def digits(data, ws, big):
    """Words of the data as their digits, least significant first (plain bytes for word size 0)."""
    if not ws:
        return list(data)
    return [list(int.from_bytes(data[i:i + ws], "big" if big else "little").to_bytes(ws, "little")) for i in range(0, len(data), ws)]


async def access(ag, pre, w, args, data, n, ws, big, form, **kw):
    """One access through the plain or a typed accessor; returns bytes or the digits of the words read."""
    do = "write" if w else "read"
    if not ws:
        if w:
            return await getattr(ag, f"{pre}_write")(*args, data, **kw)
        return list(await getattr(ag, f"{pre}_read")(*args, n, **kw))
    order = "big" if big else "little"
    one, many = FORMS.get(ws, (None, None))
    vals = [int.from_bytes(data[i:i + ws], order) for i in range(0, len(data), ws)]
    kw = dict(kw)
    if ws > 1 and (big or form == 3):
        kw["byteorder"] = order
    if form == 1:
        f = getattr(ag, f"{pre}_{do}_{one}")
        r = await (f(*args, vals[0], **kw) if w else f(*args, **kw))
        r = [r]
    elif form == 2:
        f = getattr(ag, f"{pre}_{do}_{many}")
        r = await (f(*args, vals, **kw) if w else f(*args, n // ws, **kw))
    else:
        f = getattr(ag, f"{pre}_{do}_" + ("word" if n == ws else "words"))
        r = await (f(*args, vals[0] if n == ws else vals, ws=ws, **kw) if w else f(*args, n // ws, ws=ws, **kw) if n != ws else f(*args, ws=ws, **kw))
        if n == ws:
            r = [r]
    if w:
        return None
    return [list(int(x).to_bytes(ws, "little")) for x in r]


def init_byte(r, off):
    return (r * 53 + off * 7 + (off // 256) * 13) % 256


class Broken(Region):
    """Host region behind which the access always fails."""

    async def _read(self, address, length, **kwargs):
        raise Exception("device error")

    async def _write(self, address, data, **kwargs):
        raise Exception("device error")


class TapRC(RootComplex):
    """Root complex whose software-side TLPs are recorded."""
    env = None

    async def downstream_send(self, tlp):
        e = self.env
        if e and e.on("snd"):
            e.log("snd", f=0, **tl(tlp, e.data))
            k = dig(tlp)
        await super().downstream_send(tlp)
        if e and e.on("snt"):
            e.log("snt", f=0, **k)

    async def downstream_recv(self, tlp):
        e = self.env
        if e and e.on("rcv"):
            e.log("rcv", f=0, **tl(tlp, e.data))
        if e and e.rxdelay:
            await Timer(e.rng.choice(e.rxdelay), "ns")
        await super().downstream_recv(tlp)


class Probe(MemoryEndpoint):
    """Memory endpoint whose TLPs are recorded at the function boundary."""
    def __init__(self, env, fid, spec):
        self._env, self._fid = env, fid
        super().__init__()
        self.vendor_id = spec.get("vid", 0x1234)
        self.device_id = spec.get("did", 0x5600 + fid)
        self.class_code = spec.get("cls", 0x058000 + fid)
        self.revision_id = spec.get("rev", fid & 0xff)
        self.subsystem_vendor_id = spec.get("svid", 0x1af4)
        self.subsystem_id = spec.get("sid", 0x100 + fid)
        if "mpss" in spec:
            self.pcie_cap.max_payload_size_supported = spec["mpss"]
        self.pcie_cap.extended_tag_supported = bool(spec.get("etag", 1))
        if "tags" in spec:
            self.tag_count = spec["tags"]
        self.crs, self.crs_any = spec.get("crs", 0), 0
        self.msi_cap = self.msix_cap = None
        if spec.get("msi") is not None:
            m = spec["msi"]
            self.msi_cap = MsiCapability()
            self.msi_cap.msi_multiple_message_capable = m["mmc"]
            self.msi_cap.msi_64bit_address_capable = m.get("a64", 1)
            self.msi_cap.msi_per_vector_mask_capable = m.get("pvm", 1)
            self.register_capability(self.msi_cap)
        self.bars = []
        for b in spec.get("bars", []):
            if b.get("skip"):
                self.bar_ptr += b["skip"]
            i = self.bar_ptr
            kw, own = {}, None
            if b["size"] > 1 << 26:     # only its address matters
                async def rd(addr, length):
                    return bytes(length)

                async def wr(addr, data):
                    pass
                kw = dict(read=rd, write=wr)
            elif b.get("cb") is not None:       # memory of the user behind functions that take their time
                own, dl = bytearray(b["size"]), random.Random(b["size"] + i)

                async def rd(addr, length, own=own, d=b["cb"], dl=dl):
                    t = dl.choice(d)
                    if t:
                        await Timer(t, "ns")
                    return bytes(own[addr:addr + length])

                async def wr(addr, data, own=own, d=b["cb"], dl=dl):
                    t = dl.choice(d)
                    if t:
                        await Timer(t, "ns")
                    assert addr + len(data) <= len(own)
                    own[addr:addr + len(data)] = data
                kw = dict(read=rd, write=wr)
            kind = (bool(b.get("ext")), bool(b.get("pf")), bool(b.get("io")))
            if b.get("short") and kind == (False, False, True):
                mem = self.add_io_region(b["size"], **kw)
            elif b.get("short") and kind == (False, False, False):
                mem = self.add_mem_region(b["size"], **kw)
            elif b.get("short") and kind == (True, True, False):
                mem = self.add_prefetchable_mem_region(b["size"], **kw)
            else:
                mem = self.add_region(b["size"], ext=kind[0], prefetch=kind[1], io=kind[2], **kw)
            if own is not None and mem is None:
                mem = own
            self.bars.append((i, b, mem))
        if spec.get("msix") is not None:
            m = spec["msix"]
            self.msix_cap = MsixCapability()
            self.msix_cap.msix_table_size = m["n"] - 1
            self.msix_cap.msix_table_bar_indicator_register = self.bars[m["bar"]][0]
            self.msix_cap.msix_table_offset = m.get("off", 0)
            self.msix_cap.msix_pba_bar_indicator_register = self.bars[m["bar"]][0]
            self.msix_cap.msix_pba_offset = m.get("pba", 0x8000)
            self.msix_bar = m["bar"]
            self.register_capability(self.msix_cap)
        if spec.get("rom"):
            self.expansion_rom_addr_mask = 0xffffffff & ~(spec["rom"] - 1)
        self.script = None

    async def upstream_send(self, tlp):
        e = self._env
        if e.on("snd"):
            e.log("snd", f=self._fid, **tl(tlp, e.data))
            k = dig(tlp)
        await super().upstream_send(tlp)
        if e.on("snt"):
            e.log("snt", f=self._fid, **k)

    async def upstream_recv(self, tlp):
        e = self._env
        if e.on("rcv"):
            e.log("rcv", f=self._fid, **tl(tlp, e.data))
        if e.rxdelay:
            await Timer(e.rng.choice(e.rxdelay), "ns")
        await super().upstream_recv(tlp)

    async def handle_config_0_read_tlp(self, tlp):
        if self.crs > 0 and (tlp.address == 0 or self.crs_any):
            self.crs -= 1
            cpl = Tlp.create_crs_completion_for_tlp(tlp, self.pcie_id)
            await self.upstream_send(cpl)
            return
        await super().handle_config_0_read_tlp(tlp)

    async def handle_mem_read_tlp(self, tlp):
        if self.script is not None:
            await self.script(self, tlp)
            return
        await super().handle_mem_read_tlp(tlp)


class Env:
    def __init__(self, scn, log):
        self.scn, self.log = scn, log
        self.rng = random.Random(scn.get("seed", 0) + 17)
        self.data = bool(scn.get("data"))
        self.events = set(scn.get("events", ["w", "snd", "rcv"]))
        self.active = False
        self.rxdelay = None
        self.links, self.fns, self.brs, self.nodes = [], {}, {}, {}
        self.mems = {}
        self.sizes = {}
        self.cid = 0

    def on(self, k):
        return self.active and k in self.events

    # --------------------------------------------------------------- build
    def tap(self, port, l, d):
        orig = port.ext_recv

        async def ext_recv(pkt):
            if isinstance(pkt, Tlp) and self.on("w"):
                self.log("w", l=l, d=d, **tl(pkt, self.data))
            await orig(pkt)
        port.ext_recv = ext_recv

    def port(self, spec, default):
        """The default port, or one with other credits (then the default one must not dangle: a port has to be connected)."""
        fc = spec.get("fc")
        if fc is None:
            return None
        SimPort(fc_init=[[8, 32] * 3] * 8).connect(default)
        return SimPort(fc_init=[fc] * 8)

    def build(self):
        t = self.scn["topo"]
        TapRC.env = self
        rc = TapRC()
        rc.env = self
        self.rc = rc
        if "mps" in t:
            rc.max_payload_size = t["mps"]
        if "mpss" in t:
            rc.max_payload_size_supported = t["mpss"]
        if "mrrs" in t:
            rc.max_read_request_size = t["mrrs"]
        if "rcb" in t:
            rc.read_completion_boundary = bool(t["rcb"])
        if t.get("split"):
            rc.split_on_all_rcb = True
        self.next_id = 1
        self.truth = []          # functions in depth-first order
        self.nodes[0] = rc
        self._ports(rc, t["ports"], 0, rc)
        self.nbr = self.next_id
        r = 900
        self.hostregs = []
        for h in t.get("host", []):
            if h.get("io"):
                a, mem = rc.alloc_io_region(h["size"]) if h.get("addr") is None else (h["addr"], None)
                if mem is None:
                    reg = MemoryRegion(h["size"])
                    rc.io_address_space.register_region(reg, a)
                    mem = reg.mem
            elif h.get("addr") is None:
                a, mem = rc.alloc_region(h["size"])
            else:
                a = h["addr"]
                reg = MemoryRegion(h["size"])
                rc.mem_address_space.register_region(reg, a)
                mem = reg.mem
            self.hostregs.append(dict(r=r, f=0, io=int(bool(h.get("io"))), base=a, size=h["size"]))
            self.mems[r] = mem
            self.sizes[r] = h["size"]
            r += 1
        self.bads = []
        for b in t.get("bad", []):
            reg = Broken(b["size"])
            pool = b["addr"] < 0x80000000
            ((rc.io_pool if pool else rc.io_address_space) if b.get("io") else (rc.mem_pool if pool else rc.mem_address_space)).register_region(reg, b["addr"])
            self.bads.append(b)
        for f, fn in self.fns.items():
            for k, (i, b, mem) in enumerate(fn.bars):
                self.sizes[f * 10 + i] = b["size"]
                if mem is None:
                    continue
                self.mems[f * 10 + i] = mem
        for r, mem in self.mems.items():
            mem[:] = bytes(init_byte(r, o) for o in range(len(mem)))
        self.shadow = {r: bytes(m) for r, m in self.mems.items()}

    def _ports(self, sw, ports, parent, owner):
        for idx, p in enumerate(ports):
            fid = self.next_id
            self.next_id += 1
            if p["t"] == "ie":       # endpoint integrated in the root complex or a switch
                fn = Probe(self, fid, p["fns"][0])
                sw.add_endpoint(fn)
                self.fns[fid] = fn
                self.truth.append(dict(f=fid, k="ep", up=parent, o=fn, spec=p["fns"][0]))
                continue
            pspec = (p or {}).get("port", {})
            # make_port() derives its settings from the upstream bridge; keep that path
            br = sw.make_port()
            pp = self.port(pspec, br.downstream_port)
            if pp is not None:
                br.set_downstream_port(pp)
            if "pmpss" in (p or {}):
                br.pcie_cap.max_payload_size_supported = p["pmpss"]
            self._bbars(br, (p or {}).get("pbars", []))
            self.brs[fid] = br
            self.truth.append(dict(f=fid, k="dp" if parent else "rp", up=parent, o=br))
            l = len(self.links) + 1
            if p["t"] == "ep":
                if p.get("ctor") and not any("fnum" in x for x in p["fns"]):      # functions given to the constructor
                    pre = [Probe(self, self.next_id + k, x) for k, x in enumerate(p["fns"])]
                    dev = Device(pre[0] if len(pre) == 1 and p["ctor"] == 1 else pre)
                else:
                    pre, dev = None, Device()
                port = self.port(p, dev.upstream_port)
                if port is not None:
                    dev.set_port(port)
                port = dev.upstream_port
                self._phy(port, p)
                self.links.append(dict(l=l, up=fid, dn="ep"))
                fids = []
                for fs in p["fns"]:
                    ff = self.next_id
                    self.next_id += 1
                    fn = pre[len(fids)] if pre else Probe(self, ff, fs)
                    if pre:
                        pass
                    elif "fnum" in fs:
                        fn.pcie_id = PcieId(0, 0, fs["fnum"])
                        dev.add_function(fn)
                    else:
                        dev.append_function(fn)
                    self.fns[ff] = fn
                    fids.append(ff)
                    self.truth.append(dict(f=ff, k="ep", up=fid, o=fn, spec=fs))
                self.tap(port, l, 0)
                self.tap(br.downstream_port, l, 1)
                br.connect(dev)
            else:
                s = Switch()
                ub = s.upstream_bridge
                if "mpss" in p:
                    ub.pcie_cap.max_payload_size_supported = p["mpss"]
                ub.pcie_cap.extended_tag_supported = bool(p.get("etag", 0))
                port = self.port(p, ub.upstream_port)
                if port is not None:
                    s.set_upstream_port(port)
                port = ub.upstream_port
                self._phy(port, p)
                self.links.append(dict(l=l, up=fid, dn="sw"))
                self._bbars(ub, p.get("ubars", []))
                uf = self.next_id
                self.next_id += 1
                self.brs[uf] = ub
                self.truth.append(dict(f=uf, k="up", up=fid, o=ub))
                self.tap(port, l, 0)
                self.tap(br.downstream_port, l, 1)
                br.connect(s)
                self._ports(s, p["ports"], uf, s)

    @staticmethod
    def _bbars(br, bars):
        """BARs of a bridge function."""
        br.bars, i = [], 0
        for b in bars:
            br.configure_bar(i, b["size"], bool(b.get("ext")), bool(b.get("pf")), bool(b.get("io")))
            br.bars.append((i, b))
            i += 2 if b.get("ext") else 1

    def _phy(self, port, p):
        if "speed" in p:
            port.max_link_speed, port.max_link_width = p["speed"], p.get("width", 4)
        else:
            port.max_link_speed, port.max_link_width = 3, 16

    # --------------------------------------------------------------- snapshots
    def log_topo(self):
        out = []
        for t in self.truth:
            o = t["o"]
            out.append(dict(f=t["f"], k=t["k"], up=t["up"], vid=o.vendor_id, did=o.device_id, cls=o.class_code, rev=o.revision_id,
                            mf=int(bool(o.multifunction_device)), fn=int(o.function_num), dv=int(o.device_num),
                            mpss=int(o.pcie_cap.max_payload_size_supported), ets=int(bool(o.pcie_cap.extended_tag_supported)),
                            svid=int(getattr(o, "subsystem_vendor_id", 0)), ssid=int(getattr(o, "subsystem_id", 0)),
                            lim=int(o.tag_count), crs=int(getattr(o, "crs", 0)),
                            bars=[dict(i=i, s=limbs(b["size"]), io=int(bool(b.get("io"))), x=int(bool(b.get("ext"))), pf=int(bool(b.get("pf"))))
                                  for i, b, *_ in getattr(o, "bars", [])], rom=limbs(t.get("spec", {}).get("rom", 0))))
        self.log("topo", fns=out, links=self.links,
                 host=[dict(r=h["r"], io=h["io"], base=limbs(h["base"]), size=limbs(h["size"])) for h in self.hostregs],
                 bad=[dict(io=int(bool(b.get("io"))), base=limbs(b["addr"]), size=limbs(b["size"])) for b in self.bads])

    async def log_hw(self):
        """Register state, read from the functions themselves (not through the fabric)."""
        out = []
        for t in self.truth:
            o = t["o"]
            cmd = await o.read_config_register(1)
            bars = [(await o.read_config_register(4 + i)) & 0xffffffff for i in range(6 if t["k"] == "ep" else 2)]
            msk = [int(m) & 0xffffffff for m in o.bar_mask]
            e = dict(f=t["f"], id=int(o.pcie_id), cmd=cmd & 0xffff, bars=[[b >> 16, b & 0xffff] for b in bars], msk=[[m >> 16, m & 0xffff] for m in msk],
                     mps=int(o.pcie_cap.max_payload_size), mrrs=int(o.pcie_cap.max_read_request_size), ete=int(bool(o.pcie_cap.extended_tag_field_enable)))
            if t["k"] != "ep":
                b = await o.read_config_register(6)
                r7, r8, r9, r10, r11, r12 = [await o.read_config_register(k) for k in range(7, 13)]
                e.update(pri=b & 0xff, sec=(b >> 8) & 0xff, sub=(b >> 16) & 0xff,
                         iob=limbs(((r7 & 0xf0) << 8) | ((r12 & 0xffff) << 16)), iol=limbs((r7 & 0xf000) | 0xfff | (r12 & 0xffff0000)),
                         mb=limbs((r8 & 0xfff0) << 16), ml=limbs((r8 & 0xfff00000) | 0xfffff),
                         pb=limbs(((r9 & 0xfff0) << 16) | (r10 << 32)), pl=limbs((r9 & 0xfff00000) | 0xfffff | (r11 << 32)))
            if t["k"] == "ep":
                rom = await o.read_config_register(12)
                e["rom"] = [rom >> 16, rom & 0xffff]
                e["romm"] = [int(o.expansion_rom_addr_mask) >> 16, int(o.expansion_rom_addr_mask) & 0xffff]
            out.append(e)
        rc = self.rc
        self.log("hw", fns=out, rc=dict(iob=limbs(rc.io_base), iol=limbs(rc.io_limit), mb=limbs(rc.mem_base), ml=limbs(rc.mem_limit),
                                        pb=limbs(rc.prefetchable_mem_base), pl=limbs(rc.prefetchable_mem_limit),
                                        mps=int(rc.max_payload_size), mrrs=int(rc.max_read_request_size), rcb=int(bool(rc.read_completion_boundary)),
                                        tags=int(rc.tag_count)))

    def log_tree(self):
        out = []

        def bus(b, parent):
            for d in b.devices:
                bars = []
                for i in range(6):
                    a, s = d.bar_addr[i], d.bar_size[i]
                    if s:
                        bars.append(dict(i=i, a=limbs(a or 0), s=limbs(s), raw=int((d.bar_raw[i] or 0) & 0xf),
                                         win=int(d.bar_window[i] is not None), wb=limbs(d.bar_window[i].get_absolute_address(0) or 0) if d.bar_window[i] is not None else [],
                                         ws=limbs(d.bar_window[i].size) if d.bar_window[i] is not None else []))
                me = int(d.pcie_id)
                out.append(dict(id=me, par=parent, bus=b.bus_num, vid=d.vendor_id, did=d.device_id, cls=d.class_code, rev=d.revision_id,
                                svid=d.subsystem_vendor_id, ssid=d.subsystem_id, hdr=d.header_type & 0x7f, mf=int(bool(d.multifunction)), bars=bars,
                                rom=dict(a=limbs(d.expansion_rom_addr or 0), s=limbs(d.expansion_rom_size or 0)),
                                caps=[[c, o] for c, o in d.capabilities], ecaps=[[c, o] for c, o in d.ext_capabilities],
                                sec=d.subordinate.bus_num if d.subordinate else 0, sub=d.subordinate.last_bus_num if d.subordinate else 0))
                if d.subordinate:
                    bus(d.subordinate, me)
        bus(self.rc.host_bridge.bus, -1)
        find = []
        for t in self.truth:
            try:
                d = self.rc.find_device(t["o"].pcie_id)
            except Exception:
                d = None
            find.append(dict(f=t["f"], id=int(t["o"].pcie_id), hit=int(d is not None), did=d.device_id if d is not None else 0))
        self.log("tree", devs=out, find=find)

    def dump(self):
        """Changes of every backing memory since the last dump."""
        ch = []
        for r, m in self.mems.items():
            b = bytes(m)
            s = self.shadow[r]
            if b != s:
                for o in range(len(b)):
                    if b[o] != s[o]:
                        ch.append([r, o, b[o]])
                        if len(ch) > 30000:
                            break
                self.shadow[r] = b
        self.log("diff", ch=ch)

    def region(self, r):
        """(agent-visible absolute address, io, size) of region r."""
        if r >= 900:
            h = self.hostregs[r - 900]
            return h["base"], h["io"], h["size"]
        f, i = divmod(r, 10)
        fn = self.fns[f]
        v = fn.bar[i]
        if v & 1:
            return v & ~3, 1, self.sizes[r]
        a = v & ~0xf
        if v & 4:
            a |= fn.bar[i + 1] << 32
        return a, 0, self.sizes[r]

    def log_map(self):
        out = []
        for r in self.sizes:
            a, io, size = self.region(r)
            out.append(dict(r=r, f=0 if r >= 900 else r // 10, io=io, base=limbs(a), size=size if r in self.mems else 0, last=limbs(a + size - 1)))
        self.log("map", regs=out)

    # --------------------------------------------------------------- steps
    async def steps(self, st):
        for s in st:
            await self.step(s)

    async def step(self, s):
        await getattr(self, "op_" + s["op"])(s)

    async def op_enum(self, s):
        self.active = bool(s.get("rec"))
        exc = 0
        try:
            await self.rc.enumerate(timeout=s.get("timeout", 1000))
        except Exception as e:
            if s.get("noexc", 1):
                raise
            exc = 1
        self.active = True
        await self.log_hw()
        self.log_tree()
        if s.get("enable", 1):
            self.active = False
            for t in self.truth:
                d = self.rc.find_device(t["o"].pcie_id)
                if d is not None:
                    await d.enable_device()
                    await d.set_master()
            await Timer(500, "ns")
            self.active = True
            await self.log_hw()
        self.log_map()

    async def op_reprobe(self, s):
        """the host looks at the BARs again"""
        for t in self.truth:
            d = self.rc.find_device(t["o"].pcie_id)
            if d is not None:
                await d.read_bars(2 if d.header_type & 0x7f == 1 else 6, 0x38 if d.header_type & 0x7f == 1 else 0x30)
        await self.log_hw()

    async def op_enable(self, s):
        """Enable functions through the host API; everything above them must become usable."""
        self.active = False
        for f in s["f"]:
            d = self.rc.find_device(self.fns[f].pcie_id)
            await d.enable_device()
            await d.set_master()
        self.active = True
        await self.log_hw()

    async def op_hw(self, s):
        await self.log_hw()

    async def op_map(self, s):
        self.log_map()

    async def op_dump(self, s):
        await Timer(s.get("t", 2000), "ns")
        self.dump()

    async def op_race(self, s):
        self.log("race")

    async def op_wait(self, s):
        await Timer(s["t"], "ns")

    async def op_par(self, s):
        ts = [cocotb.start_soon(self.steps(b)) for b in s["b"]]
        for t in ts:
            await t

    async def op_spawn(self, s):
        """Branches that are not waited for."""
        for b in s["b"]:
            cocotb.start_soon(self.steps(b))

    async def op_rxdelay(self, s):
        self.rxdelay = s["d"] or None

    async def op_lazy(self, s):
        """Completers f answer memory reads after random delays, several at a time, in pieces of random (legal) size."""
        d = s["d"]
        for f in s["f"]:
            async def script(ag, tlp, f=f):
                await self.lazy(f, ag, tlp, d)
            if f == 0:
                async def h(tlp, sc=script):
                    await sc(self.rc, tlp)
                for ty in (TlpType.MEM_READ, TlpType.MEM_READ_64):
                    self.rc.register_rx_tlp_handler(ty, h)
            else:
                self.fns[f].script = script

    async def lazy(self, f, ag, tlp, d):
        n = tlp.length * 4
        if f == 0:
            data = await self.rc.mem_address_space.read(tlp.address, n)
            me, mps, rcb = PcieId(0, 0, 0), self.rc.max_payload_size, 128
        else:
            b, off = ag.match_bar(tlp.address)
            data = await ag.read_region(b, off, n)
            me, mps, rcb = ag.pcie_id, ag.pcie_cap.max_payload_size, 128
        tlp.release_fc()
        cocotb.start_soon(self._lazy_cpl(ag, tlp, bytes(data), d, me, 128 << mps, rcb))

    async def _lazy_cpl(self, ag, tlp, data, d, me, mps, rcb):
        fb, lb = tlp.first_be, tlp.last_be if tlp.length > 1 else tlp.first_be
        lo = next((k for k in range(4) if fb >> k & 1), 0)
        hi = next((k for k in range(4) if lb >> (3 - k) & 1), 3)
        total = 1 if tlp.length == 1 and not fb else len(data) - lo - hi
        o = 0
        while o < len(data):
            if d:
                await Timer(self.rng.randrange(d[0], d[1] + 1), "ns")
            a = tlp.address + o
            ends = [e for e in range((a // rcb + 1) * rcb - tlp.address, len(data), rcb) if e - o <= mps]
            if len(data) - o <= mps:
                ends.append(len(data))
            e = self.rng.choice(ends)
            c = Tlp()
            c.fmt_type = TlpType.CPL_DATA
            c.requester_id, c.tag, c.tc, c.attr, c.completer_id = tlp.requester_id, tlp.tag, tlp.tc, tlp.attr, me
            c.byte_count = total
            c.lower_address = (a + (lo if o == 0 else 0)) & 0x7f
            c.set_data(data[o:e])
            total -= e - o - (lo if o == 0 else 0)
            await ag.send(c)
            o = e

    async def op_set(self, s):
        """Device control settings, changed on the fly through configuration writes of the host (or RC attributes)."""
        f = s["f"]
        if f == 0:
            for k, v in s["v"].items():
                setattr(self.rc, {"mps": "max_payload_size", "mrrs": "max_read_request_size", "rcb": "read_completion_boundary", "tags": "tag_count"}[k], v)
        else:
            fn = self.fns[f]
            d = self.rc.find_device(fn.pcie_id)
            old = self.active
            self.active = False
            if "mps" in s["v"]:
                await d.set_mps(s["v"]["mps"])
            if "lower" in s["v"]:
                await d.set_mps(min(s["v"]["lower"], await d.get_mps()))
            if "mrrs" in s["v"]:
                await d.set_readrq(s["v"]["mrrs"])
            if "etag" in s["v"]:
                v = await d.capability_read_dword(PciCapId.EXP, 8)
                v = (v & ~0x100) | (0x100 if s["v"]["etag"] else 0)
                await d.capability_write_dword(PciCapId.EXP, 8, v)
            if "cmd" in s["v"]:
                await d.config_write_word(4, s["v"]["cmd"])
            self.active = old
        await self.log_hw()

    def holes(self, io, n=4096):
        """Addresses that nothing claims (n bytes from there on), near everything that is claimed."""
        used = [(0x80000000, 0x1000)] if not io else []
        cand = [0x7fff0000, 0xfffff000, 0x80001000] if not io else [0x7fff0000, 0xfffff000]
        for b in self.bads:
            if bool(b.get("io")) == bool(io):
                used.append((b["addr"], b["size"]))
                cand += [b["addr"] + b["size"], b["addr"] - n]
        for r in self.sizes:
            a, i, size = self.region(r)
            if bool(i) == bool(io):
                used.append((a, size))
                cand += [a + size, a - n, a - 4]
        for t in self.truth:
            o = t["o"]
            if t["k"] != "ep":
                for i, b in getattr(o, "bars", []):
                    v = o.bar[i]
                    if bool(v & 1) == bool(io):
                        a = v & ~0xf | (o.bar[i + 1] << 32 if v & 5 == 4 else 0)
                        used.append((a, b["size"]))
                        cand += [a + b["size"]]
                for lo, hi in [(o.io_base, o.io_limit)] if io else [(o.mem_base, o.mem_limit), (o.prefetchable_mem_base, o.prefetchable_mem_limit)]:
                    if lo < hi:
                        cand += [lo, (lo + hi) // 2 & ~3, hi + 1 - n, hi + 1]
        rc = self.rc
        cand += [rc.io_limit + 1] if io else [rc.mem_limit + 1, rc.prefetchable_mem_limit + 1, 1 << 40, (1 << 63) + (1 << 50)]
        return sorted({a for a in cand if 0x1000 <= a < (1 << 32 if io else 1 << 64) - n and all(a + n <= u or a >= u + s for u, s in used)})

    def absent(self):
        """IDs of functions that do not exist: on every bus, at neighbouring function and device numbers, and on absent buses."""
        have = {int(t["o"].pcie_id) for t in self.truth}
        bus = {i >> 8 for i in have}
        top = max(bus) + 1
        return sorted({b << 8 | d << 3 | f for b in bus | {top, top + 3, 255} for d in (0, 1, 2, 17, 31) for f in (0, 1, 5, 7)} - have - {0})

    async def op_stray(self, s):
        """A completion nobody asked for, from agent f to a function, the root complex or an absent ID."""
        ag = self._agent(s["f"])
        t = Tlp()
        t.fmt_type = TlpType.CPL_DATA if s.get("n") else TlpType.CPL
        if "absent" in s:
            ids = self.absent()
            t.requester_id = PcieId.from_int(ids[s["absent"] % len(ids)])
        elif s["to"]:
            t.requester_id = (self.fns.get(s["to"]) or self.brs.get(s["to"])).pcie_id
        t.completer_id = ag.pcie_id if s["f"] else PcieId(0, 0, 0)
        t.tag, t.tc, t.attr = s["tag"], TlpTc(s.get("tc", 0)), TlpAttr(s.get("at", 0))
        t.lower_address = 0
        t.status = CplStatus(s.get("st", 0))
        if s.get("n"):
            t.set_data(bytes(random.Random(s["tag"]).getrandbits(8) for _ in range(4 * s["n"])))
            t.byte_count = 4 * s["n"]
        else:
            t.byte_count = 4
        await ag.send(t)

    async def op_retry(self, s):
        """Function f answers the next n reads of its first register (any: of any register) with retry status."""
        self.fns[s["f"]].crs, self.fns[s["f"]].crs_any = s["n"], s.get("any", 0)
        self.log("retry", f=s["f"], n=s["n"], any=s.get("any", 0))

    def _agent(self, f):
        return self.rc if f == 0 else self.fns[f]

    async def op_acc(self, s):
        """One public access: agent f, w=1 write, region r, offset o, length n (or absolute address 'abs')."""
        f, w = s["f"], s["w"]
        if "hole" in s:
            hs = self.holes(s.get("io", 0), max(s["n"], 4))
            addr, io, r = hs[s["hole"] % len(hs)], s.get("io", 0), -1
        elif "abs" in s:
            addr, io, r = s["abs"], s.get("io", 0), -1
        else:
            base, io, _ = self.region(s["r"])
            addr, r = base + s["o"], s["r"]
        self.cid += 1
        c = self.cid
        ag = self._agent(f)
        n = s["n"]
        rd = random.Random(c * 7919 + self.scn.get("seed", 0))
        data = bytes(rd.getrandbits(8) for _ in range(n)) if w else b""
        attr, tc = TlpAttr(s.get("at", 0)), TlpTc(s.get("tc", 0))
        to = s.get("to", 0)
        kw = {} if io else dict(attr=attr, tc=tc)
        ws, big, form = typed(s, n)
        self.log("call", c=c, f=f, w=w, io=io, r=r, o=s.get("o", 0), n=n, a=limbs(addr), data=digits(data, ws, big), ws=ws, big=big, at=int(attr), tc=int(tc), to=to)
        ok, res = 1, b""
        via = s.get("via", 0)
        try:
            if via and f == 0 and r >= 0 and r < 900:
                d = self.rc.find_device(self.fns[r // 10].pcie_id)
                win = d.bar_window[r % 10]
                if w:
                    await win.write(s["o"], data, timeout=to, **kw)
                else:
                    res = await win.read(s["o"], n, timeout=to, **kw)
                res = digits(res, ws, big)
            elif via >= 2 and f == 0 and n:
                if via == 3:
                    sp = self.rc.io_address_space if io else self.rc.mem_address_space
                    rdf, wrf = sp.read, sp.write
                elif io:
                    rdf, wrf = self.rc.read_io_region, self.rc.write_io_region
                else:
                    rdf, wrf = self.rc.read_region, self.rc.write_region
                if w:
                    await wrf(addr, data)
                else:
                    res = digits(await rdf(addr, n), ws, big)
            else:
                res = await access(ag, "io" if io else "mem", w, (addr,), data, n, ws, big, form, timeout=to, **kw)
        except Exception as e:
            ok = 0
            if self.scn.get("dbg"):
                import traceback
                traceback.print_exc()
        self.log("ret", c=c, f=f, w=w, ok=ok, data=res or [])

    async def op_cfg(self, s):
        """Configuration access of the host: function f (or id), register address o."""
        dev = PcieId.from_int(s["id"]) if "id" in s else (self.fns.get(s["f"]) or self.brs.get(s["f"])).pcie_id
        self.cid += 1
        c = self.cid
        self.log("ccall", c=c, id=int(dev), w=s["w"], o=s["o"], n=s["n"], data=s.get("data", []))
        res = b""
        if s["w"]:
            await self.rc.config_write(dev, s["o"], bytes(s["data"]))
        else:
            res = await self.rc.config_read(dev, s["o"], s["n"])
        self.log("cret", c=c, data=list(res))

    async def op_tapcfg(self, s):
        """From here on every access to a configuration register is recorded at the function; capability offsets as the registers show them."""
        self.cfgtap = True
        self.rawrd, self.rawcaps = {}, {}
        for t in self.truth:
            o, f = t["o"], t["f"]
            rd, wr = o.read_config_register, o.write_config_register
            self.rawrd[f] = rd

            async def rdx(reg, f=f, rd=rd):
                v = await rd(reg)
                self.log("crd", f=f, reg=int(reg), v=list((int(v) & 0xffffffff).to_bytes(4, "little")))
                return v

            async def wrx(reg, data, mask, f=f, wr=wr):
                self.log("cwr", f=f, reg=int(reg), v=list((int(data) & 0xffffffff).to_bytes(4, "little")), m=int(mask))
                await wr(reg, data, mask)
            caps = []
            p = await rd(0x34 // 4) & 0xfc
            while p:
                v = await rd(p // 4)
                caps.append([v & 0xff, 0, p])
                p = v >> 8 & 0xfc
            p = 0x100
            while p:
                v = await rd(p // 4)
                if v & 0xffff:
                    caps.append([v & 0xffff, 1, p])
                p = v >> 20 & 0xffc
            self.rawcaps[f] = caps
            self.log("caps", f=f, k=t["k"], id=int(o.pcie_id), caps=caps)
            o.read_config_register, o.write_config_register = rdx, wrx

    async def _vis(self, f):
        """Whether the root port above f shows retry status to software."""
        up = {t["f"]: t["up"] for t in self.truth}
        if f == 0 or f not in up:
            return 0
        while up[f]:
            f = up[f]
        o = next(t["o"] for t in self.truth if t["f"] == f)
        base = next(c[2] for c in self.rawcaps[f] if c[:2] == [0x10, 0])
        return await self.rawrd[f](base // 4 + 7) >> 4 & 1

    async def op_vis(self, s):
        """Retry status visible to software below the root ports, or not."""
        for t in self.truth:
            if t["up"] == 0:
                t["o"].pcie_cap.crs_software_visibility_enable = bool(s["v"])

    async def op_cfgx(self, s):
        """One configuration access of the host software through any of its entry points."""
        if "absent" in s:
            ids = self.absent()
            dev, f = PcieId.from_int(ids[s["absent"] % len(ids)]), -1
        else:
            f = s["f"]
            dev = next(t["o"] for t in self.truth if t["f"] == f).pcie_id
        self.cid += 1
        c, w, n, o = self.cid, s["w"], s["n"], s["o"]
        rd = random.Random(c * 104729 + self.scn.get("seed", 0))
        data = bytes(rd.getrandbits(8) for _ in range(n)) if w else b""
        ws, big, form = typed(s, n)
        cap, ext = s.get("cap", [0, 0])
        ag = self.rc if s["api"] == "rc" else self.rc.find_device(dev)
        args = (dev,) if s["api"] == "rc" else ()
        pre = "config"
        if cap:
            pre = "capability"
            args += ((PciExtCapId if ext else PciCapId)(cap),)
        kw = dict(timeout=s["to"]) if s.get("to") else {}
        self.log("ccall", c=c, f=f, w=w, o=o, n=n, cap=cap, ext=ext, data=digits(data, ws, big), ws=ws, big=big, to=s.get("to", 0), vis=await self._vis(f))
        ok, res = 1, None
        try:
            res = await access(ag, pre, w, args + (o,), data, n, ws, big, form, **kw)
        except Exception as e:
            ok = 0
            if self.scn.get("dbg"):
                import traceback
                traceback.print_exc()
        self.log("cret", c=c, f=f, ok=ok, data=res or [])

    async def op_raw(self, s):
        """One raw request TLP from agent f; non-posted ones are awaited ('to' ns) and the completions recorded."""
        f = s["f"]
        ag = self._agent(f)
        t = Tlp()
        ty = s["ty"]
        if "hole" in s:
            hs = self.holes(ty.startswith("IO"), 4 * s.get("n", 1))
            addr = hs[s["hole"] % len(hs)] & ~3
        elif "r" in s:
            base, io, _ = self.region(s["r"])
            addr = base + s["o"]
        else:
            addr = s.get("abs", 0)
        if ty in ("MRd", "MWr") and addr > 0xffffffff:
            ty += "64"
        t.fmt_type = TlpType[{v: k for k, v in SHORT.items()}[ty]]
        t.requester_id = ag.pcie_id if f else PcieId(0, 0, 0)
        t.address = addr
        if "absent" in s:
            ids = self.absent()
            t.completer_id = PcieId.from_int(ids[s["absent"] % len(ids)])
        elif "id" in s:
            t.completer_id = PcieId.from_int(s["id"])
        elif "cf" in s:
            t.completer_id = (self.fns.get(s["cf"]) or self.brs.get(s["cf"])).pcie_id
        t.first_be, t.last_be, t.length = s.get("fb", 15), s.get("lb", 0), s.get("n", 1)
        t.tc, t.attr = TlpTc(s.get("tc", 0)), TlpAttr(s.get("at", 0))
        self.cid += 1
        c = self.cid
        if t.has_data():
            rg = random.Random(c * 104729 + self.scn.get("seed", 0))
            t.set_data(bytes(s["data"]) if "data" in s else bytes(rg.getrandbits(8) for _ in range(4 * t.length)))
        if t.is_posted():
            self.log("raw", c=c, f=f, np=0, **tl(t, True))
            await ag.perform_posted_operation(t)
            return
        self.log("raw", c=c, f=f, np=1, to=s.get("to", 0), **tl(t, True))
        cpl = await ag.perform_nonposted_operation(t, s.get("to", 0), "ns")
        self.log("rawret", c=c, f=f, tag=int(t.tag), cpl=[tl(x, True) for x in cpl])
        return cpl


async def run(dut, scn, log):
    e = Env(scn, log)
    e.build()
    await Timer(1, "ns")
    e.log_topo()
    for s in scn["steps"]:
        await e.step(s)
    await Timer(scn.get("tail", 3000), "ns")
    log("end")
