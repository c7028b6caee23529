"""Two real ports: when does what arrive?  Nothing but hand-over and arrival times is looked at (picoseconds)."""
from drivers.link import mktlp, tid
from cocotb.utils import get_sim_time
from cocotb.triggers import Timer
import cocotb
from cocotbext.pcie.core.port import SimPort
from common import *


class Port(SimPort):
    def __init__(self, idx, log, **kw):
        self.idx, self._elog = idx, log
        super().__init__(**kw)

    async def ext_recv(self, pkt):
        t = round(get_sim_time("ps"))
        if isinstance(pkt, Dllp):
            self._elog("ar", p=self.idx, t=t, k=dllp_ev(pkt)["k"], w=2, n=0, id=0)
        else:
            hdr = 4 if pkt.fmt_type.value[0].value & 1 else 3
            self._elog("ar", p=self.idx, t=t, k="TLP", w=hdr, n=len(pkt.data), id=tid(pkt))
        await super().ext_recv(pkt)


async def run(dut, scn, log):
    rng = scn["rng"]
    ports = []
    for i in (0, 1):
        p = Port(i, log, fc_init=[[x for pair in scn["fc"][i] for x in pair]] + [[0] * 6] * 7)
        p.max_link_speed, p.max_link_width = scn["speed"][i], scn["width"][i]
        p.port_delay = scn["delay"][i] * 1e-12
        ports.append(p)

    def handler(i):
        async def h(t):
            d = rng.choice(scn.get("rel", [0]))
            if d:
                cocotb.start_soon(later(t, d))
            else:
                t.release_fc()
        return h

    async def later(t, d):
        await Timer(d, "ns")
        t.release_fc()
    for i in (0, 1):
        ports[i].rx_handler = handler(i)
    a = scn.get("first", 0)
    log("ports", speed=[x or 0 for x in scn["speed"]], width=[x or 0 for x in scn["width"]], delay=scn["delay"], free=scn["free"], t=round(get_sim_time("ps")))
    ports[a].connect(ports[1 - a])
    log("neg", speed=[p.cur_link_speed or 0 for p in ports], width=[p.cur_link_width or 0 for p in ports])
    ids = [0, 0]

    async def sender(i, s):
        for _ in range(s["n"]):
            d = rng.choice(s["gap"])
            if d:
                await Timer(d, "ns")
            ids[i] += 1
            t = mktlp(rng, s["c"], ids[i], None, s["maxb"], plain=True)
            log("sub", p=i, t=round(get_sim_time("ps")), id=tid(t))
            await ports[i].send(t)
    await Timer(scn["start"], "ns")
    tasks = [cocotb.start_soon(sender(i, s)) for i in (0, 1) for s in scn["send"][i]]
    for t in tasks:
        await t
    await Timer(scn["tail"], "ns")
    log("end", t=round(get_sim_time("ps")))
