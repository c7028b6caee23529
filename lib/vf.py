"""Check machinery: runs cocotb scenarios against /repo, TLC on the specification, and trace validation.

Only two outcomes exist for a check: exit 0, or exit 1 with a VIOLATION line.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback, random
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
VENV = "/opt/venv"
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))


class TlcResult:
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random(seed * 7919 + sum(ord(c) * 31 ** i for i, c in enumerate(pid)))
        self.scratch = tempfile.mkdtemp(prefix=f"vf-{pid}-")
        self.t0 = time.time()
        self.states = 0          # states of exhaustive / simulated specification runs
        self.transitions = 0
        self.tstates = 0         # states of trace-validation runs
        self.traces = 0          # traces of the real code validated
        self.samples = []
        self.models = []         # description of each spec run
        self.violations = []     # dicts
        self.assumptions = []
        self.counters = {}
        self.cpu = (0, "")      # most processor time a scenario took
        self._n = 0

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def pick(self, q, t):
        return q if self.quick else t

    def sub(self, name):
        self._n += 1
        d = os.path.join(self.scratch, f"{self._n:04d}-{name}")
        os.makedirs(d)
        return d

    # ------------------------------------------------------------------ real code
    def sim(self, scenarios, top="core", procs=NCPU, wall=600, params=None, env=None, chunk=None):
        """Run scenarios (dicts with 'driver') in cocotb; returns [(scenario, [events])]."""
        for i, s in enumerate(scenarios):
            s.setdefault("sid", i)
        assert len({str(s["sid"]) for s in scenarios}) == len(scenarios), "scenario ids collide"
        order = sorted(range(len(scenarios)), key=lambda i: -scenarios[i].get("cost", 1))
        if chunk is None:
            n = min(procs, max(1, len(scenarios)))
            chunks = [[] for _ in range(n)]
            load = [0] * n
            for i in order:
                k = load.index(min(load))
                chunks[k].append(i)
                load[k] += scenarios[i].get("cost", 1)
        else:
            chunks = [order[i:i + chunk] for i in range(0, len(order), chunk)]
        res = [None] * len(scenarios)
        with cf.ThreadPoolExecutor(procs) as ex:
            futs = {ex.submit(self._sim1, [scenarios[i] for i in c], top, wall, params, env): c for c in chunks if c}
            for f in cf.as_completed(futs):
                at = {str(scenarios[i]["sid"]): i for i in futs[f]}
                for s, ev in f.result():
                    res[at[str(s["sid"])]] = (s, ev)
        return [r for r in res if r]

    def _compile(self, top, params):
        key = top + "".join(f"-{k}{v}" for k, v in sorted((params or {}).items()))
        out = os.path.join(self.scratch, f"top-{key}.vvp")
        if not os.path.exists(out):
            tmp = out + f".{os.getpid()}.{id(params)}.{time.time_ns()}"
            cmd = ["iverilog", "-g2012", "-o", tmp, "-s", "vf_top"]
            for k, v in sorted((params or {}).items()):
                cmd += [f"-Pvf_top.{k}={v}"]
            cmd += [os.path.join(HARN, "rtl", f"{top}.v")]
            subprocess.run(cmd, check=True, capture_output=True)
            os.replace(tmp, out)
        return out

    def _sim1(self, scens, top, wall, params, env):
        d = self.sub("sim")
        vvp = self._compile(top, params)
        scf, outf, xmlf = (os.path.join(d, x) for x in ("scen.json", "out.ndjson", "results.xml"))
        json.dump(scens, open(scf, "w"))
        e = dict(os.environ)
        for k in ("TESTCASE", "COCOTB_RESULTS_FILE", "PYTHONHOME", "PYTEST_ADDOPTS"):
            e.pop(k, None)
        e.update(PATH=f"{VENV}/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
                 PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", RANDOM_SEED=str(self.seed), SIM="icarus",
                 PYTHONPATH=f"{REPO}:{HARN}", PYGPI_PYTHON_BIN=f"{VENV}/bin/python", MODULE="simmain",
                 PYTHONHOME="/usr", TOPLEVEL="vf_top", TOPLEVEL_LANG="verilog",
                 COCOTB_RESULTS_FILE=xmlf, COCOTB_LOG_LEVEL=os.environ.get("VF_LOG", "CRITICAL"), COCOTB_REDUCED_LOG_FMT="1",
                 VF_SCEN=scf, VF_OUT=outf, COCOTB_ANSI_OUTPUT="0")
        e.pop("PYTHONHOME")
        e["LIBPYTHON_LOC"] = subprocess.run([f"{VENV}/bin/cocotb-config", "--libpython"], capture_output=True,
                                            text=True).stdout.strip()
        e.update(env or {})
        lib = f"{VENV}/lib/python3.12/site-packages/cocotb/libs"
        log = open(os.path.join(d, "log"), "w")
        hang = False
        p = subprocess.Popen(["vvp", "-n", "-M", lib, "-m", "libcocotbvpi_icarus", vvp], cwd=d, env=e, stdout=log, stderr=log)
        try:
            p.wait(wall)
        except subprocess.TimeoutExpired:
            hang = True
            p.kill()
            p.wait()
        log.close()
        ev = {s["sid"]: [] for s in scens}
        cur = None
        done, begun = set(), set()
        if os.path.exists(outf):
            for line in open(outf):
                try:
                    o = json.loads(line)
                except ValueError:
                    continue    # truncated by kill
                if o.get("ev") == "#begin":
                    cur = o["sid"]
                    begun.add(cur)
                elif o.get("ev") == "#hang":
                    hang = True
                elif o.get("ev") == "#end":
                    self.cpu = max(self.cpu, (o["cpu"], str(cur)))
                    done.add(cur)
                    cur = None
                elif cur is not None:
                    ev[cur].append(o)
        fails = {}
        try:
            for tc in ET.parse(xmlf).getroot().iter("testcase"):
                if tc.find("failure") is not None or tc.find("error") is not None:
                    m = re.match(r"scn_(.*)", tc.get("name"))
                    if m:
                        fails[m.group(1)] = True
        except Exception:
            pass
        logt = open(os.path.join(d, "log"), errors="replace").read()
        if os.environ.get("VF_SHOWLOG"):
            sys.stderr.write(logt[-8000:])
        if hang and begun - done:
            scens = [s for s in scens if s["sid"] in begun]     # the ones behind a hanging one were not run
        for s in scens:
            if s["sid"] not in done or str(s["sid"]) in fails:
                # the run of this scenario did not complete: the code under test raised, or never returned
                why = "hang" if hang and s["sid"] not in done else "exception"
                ev[s["sid"]].append({"ev": "crash", "why": why})
                s["_log"] = self._tail(logt, s["sid"])
        return [(s, ev[s["sid"]]) for s in scens]

    @staticmethod
    def _tail(t, sid):
        i = t.find("scn_%s failed" % sid)
        if i < 0:
            i = max(0, len(t) - 3000)
        return t[i:i + 4000]

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, workers=NCPU, env=None, wall=800, args=(), name=None, heap="6g", count=True, gen=None):
        """Run TLC on spec/<module>.tla with the given cfg text."""
        d = self.sub("tlc-" + module)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        if gen:
            for f, txt in gen.items():
                open(os.path.join(d, f), "w").write(txt)
        open(os.path.join(d, "vf.cfg"), "w").write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
        cmd = ["timeout", "-k", "5", str(wall), "java", f"-Xmx{heap}", "-Xss64m"] + gc + ["-cp", TLAJAR, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", "-config", "vf.cfg", *args, module + ".tla"]
        t = time.time()
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, errors="replace")
        r = TlcResult()
        r.out, r.rc, r.dir, r.wall = p.stdout + p.stderr, p.returncode, d, time.time() - t
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
        r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", r.out)
            if m:
                r.generated = r.distinct = int(m[-1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", r.out)
        r.depth = int(m[-1]) if m else 0
        r.ok = p.returncode == 0
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        if count:
            self.states += r.distinct
            self.transitions += r.generated
            self.models.append({"model": name or module, "distinct_states": r.distinct, "states_generated": r.generated,
                                "depth": r.depth, "wall_s": round(r.wall, 1), "ok": r.ok})
        return r

    def model(self, module, cfg, name=None, **kw):
        """Exhaustive model checking of the specification; its failure is a defect of the machinery itself."""
        r = self.tlc(module, cfg, name=name, **kw)
        if not r.ok:
            raise RuntimeError(f"specification {module} ({name}) does not satisfy its own properties (rc={r.rc}):\n" + r.out[-3000:])
        return r

    def validate(self, module, runs, cfg="", consts="", shards=NCPU, what="trace", maxlines=40000, heap="3g"):
        """Check recorded traces against spec/<module>.tla (a total-verdict trace specification)."""
        runs = [r for r in runs if r is not None]
        shards = max(1, min(shards, len(runs)))
        total = sum(len(ev) for _, ev in runs)
        shards = max(shards, (total + maxlines - 1) // maxlines)
        buckets = [[] for _ in range(shards)]
        load = [0] * shards
        for r in sorted(runs, key=lambda r: -len(r[1])):
            k = load.index(min(load))
            buckets[k].append(r)
            load[k] += len(r[1]) + 1
        found = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for v in ex.map(lambda b: self._validate1(module, b, cfg, consts, heap), [b for b in buckets if b]):
                found += v
        self.traces += len(runs)
        for s, ev in runs[:3]:
            if len(self.samples) < 12:
                self.samples.append(f"{what} {s.get('sid')}: {len(ev)} events, " + json.dumps({k: s[k] for k in list(s)[:8] if not k.startswith('_')})[:300])
        return found

    def _validate1(self, module, bucket, cfg, consts, heap):
        d = self.sub("trace")
        f = os.path.join(d, "trace.ndjson")
        idx = []
        with open(f, "w") as fh:
            for s, ev in bucket:
                for k, e in enumerate(ev):
                    fh.write(json.dumps(e) + "\n")
                    idx.append((s, ev, k))
        if not idx:
            return []
        c = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" + cfg
        if consts:
            c += "\nCONSTANTS\n" + consts
        r = self.tlc(module, c, workers=1, env={"VF_TRACE": f}, count=False, heap=heap)
        self.tstates += r.distinct
        if os.environ.get("VF_SHOWTLC"):
            sys.stderr.write(r.out)
        found = []
        for m in re.finditer(r'<<\s*"VIOL",\s*(\d+),\s*(\{.*?\})\s*>>', r.out, re.S):
            l = int(m.group(1)) - 1
            clauses = sorted(set(re.findall(r'"([^"]*)"', m.group(2))))
            s, ev, k = idx[min(l, len(idx) - 1)]
            found.append({"scenario": s, "clauses": clauses, "line": k, "event": ev[k], "events": ev, "spec": module})
        if "semantic analysis failed" in r.out or "Fatal errors while parsing" in r.out:
            raise RuntimeError(f"specification {module} does not parse:\n" + r.out[-2000:])
        if not r.ok:
            # evaluation stopped: the recorded events are outside what the specification can even interpret
            m = re.findall(r"/\\ l = (\d+)", r.out) or re.findall(r"l = (\d+)", r.out)
            l = min(int(m[-1]) if m else 0, len(idx) - 1)
            s, ev, k = idx[l]
            if os.environ.get("VF_DEBUG"):
                sys.stderr.write(r.out[-4000:])
            found.append({"scenario": s, "clauses": ["unexplainable"], "line": k, "event": ev[k], "events": ev, "spec": module,
                          "tlc": r.out[-3000:]})
        return found

    # ------------------------------------------------------------------ verdicts
    def report(self, found, clauses=None):
        """Keep the verdicts whose clauses belong to this property (None: all); crashes always count."""
        for v in found:
            if clauses is not None:
                v = dict(v, clauses=[c for c in v["clauses"] if c in clauses or c.startswith("crash") or c == "unexplainable"])
            if v["clauses"]:
                self.violations.append(v)

    def finish(self, technique_note=""):
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))["findings"] if k["property"] == self.pid and k["status"] == "open"]
        fresh, seen = [], {}
        for v in self.violations:
            hit = None
            for k in known:
                if match_known(k, v):
                    hit = k
                    break
            if hit is None:
                fresh.append(v)
            else:
                seen[hit["id"]] = hit
        for k in known:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": max(self.states, 0), "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "trace_states": self.tstates,
                           "samples": self.samples or ["none"], "models": self.models, "counters": self.counters},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w"), indent=1, default=str)
        print(f"{self.pid}: tier={self.tier} states={self.states} traces={self.traces} trace_states={self.tstates} "
              f"violations={len(fresh)} wall={time.time()-self.t0:.1f}s counters={json.dumps(self.counters)} cpu={self.cpu[0]} in {self.cpu[1]}")
        if fresh and os.environ.get("VF_DEBUG"):
            import collections
            for (c, s), n in sorted(collections.Counter((tuple(v["clauses"]), str(v["scenario"].get("sid"))) for v in fresh).items(), key=str):
                print("   ", n, c, s)
        if fresh:
            rd = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, f"{self.pid}.json")
            out = []
            for v in fresh[:20]:
                k = v.get("line", 0)
                out.append({"spec": v.get("spec"), "clauses": v["clauses"], "line": k, "event": v.get("event"),
                            "before": (v.get("events") or [])[max(0, k - 25):k],
                            "scenario": {a: b for a, b in v.get("scenario", {}).items()}, "tlc": v.get("tlc", "")[-1500:]})
            json.dump({"property": self.pid, "violations": out}, open(rp, "w"), indent=1, default=str)
            for v in fresh[:8]:
                print("  violated:", v["clauses"], "in", v.get("spec"), "scenario", v.get("scenario", {}).get("sid"), "event", json.dumps(v.get("event"))[:300])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0


def match_known(k, v):
    """A known finding is identified by the specification clause and by the fields of the failing event/scenario."""
    if set(v["clauses"]) - set(k["clauses"]):
        return False
    if k.get("spec") and k["spec"] != v.get("spec"):
        return False
    for a, b in k.get("event", {}).items():
        if (v.get("event") or {}).get(a) != b:
            return False
    for a, b in k.get("scenario", {}).items():
        if (v.get("scenario") or {}).get(a) != b:
            return False
    return True


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import importlib
    ctx = Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module(f"checks.{pid.lower()}")
        mod.run(ctx)
        rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        if os.environ.get("VF_KEEP"):
            print("scratch:", ctx.scratch)
        else:
            shutil.rmtree(ctx.scratch, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.modules["vf"] = sys.modules["__main__"]
    sys.exit(main(sys.argv))
