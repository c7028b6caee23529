"""cocotb module: one cocotb test per scenario; events go to an ndjson file."""
import importlib, json, os, sys, random, logging, traceback, signal, time
import cocotb
from cocotb.utils import get_sim_time

_out = open(os.environ["VF_OUT"], "w")


class Log:
    def __init__(self):
        self.t0 = get_sim_time("ns")

    def now(self):
        return int(get_sim_time("ns") - self.t0)

    def __call__(self, ev, **kw):
        kw["ev"] = ev
        _out.write(json.dumps(kw) + "\n")

    def raw(self, o):
        _out.write(json.dumps(o) + "\n")


LIMIT = float(os.environ.get("VF_CPU", "150"))    # seconds of processor time one scenario may take


def _hang(*a):
    # the scenario never ends: stop here (process time, so that a loaded machine does not matter)
    traceback.print_stack()
    _out.write(json.dumps({"ev": "#hang"}) + "\n")
    _out.flush()
    os._exit(9)


signal.signal(signal.SIGPROF, _hang)


def _mk(scn):
    async def body(dut):
        signal.setitimer(signal.ITIMER_PROF, LIMIT)
        t0 = time.process_time()
        # harness-side randomness depends on the scenario only
        scn["rng"] = random.Random(scn.get("seed", 0))
        random.seed(scn.get("seed", 0))
        _out.write(json.dumps({"ev": "#begin", "sid": scn["sid"]}) + "\n")
        try:
            drv = importlib.import_module("drivers." + scn["driver"])
            await getattr(drv, scn.get("entry", "run"))(dut, scn, Log())
        except Exception:
            print(f"scn_{scn['sid']} failed")
            traceback.print_exc()
            sys.stderr.flush()
            raise
        _out.write(json.dumps({"ev": "#end", "cpu": round(time.process_time() - t0, 2)}) + "\n")
        _out.flush()
    body.__name__ = body.__qualname__ = f"scn_{scn['sid']}"
    return cocotb.test()(body)


logging.getLogger("cocotb.pcie").setLevel(logging.CRITICAL)
with open(os.environ["VF_SCEN"]) as _f:
    _scns = json.load(_f)
for _s in _scns:
    globals()[f"scn_{_s['sid']}"] = _mk(_s)
