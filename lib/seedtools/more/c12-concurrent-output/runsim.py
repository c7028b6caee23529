"""Runs demo_test.py (beside this file) under cocotb/Icarus in a scratch directory; exit 0 iff every test passed."""
import os, subprocess, sys, tempfile, shutil
import xml.etree.ElementTree as ET
here = os.path.dirname(os.path.abspath(__file__))
d = tempfile.mkdtemp(prefix="demo-")
try:
    v = os.path.join(here, "demo_top.v")
    if not os.path.exists(v):
        v = os.path.join(d, "demo_top.v")
        open(v, "w").write("`timescale 1ns/1ps\nmodule demo_top;\nendmodule\n")
    subprocess.run(["iverilog", "-g2012", "-s", "demo_top", "-o", d + "/top.vvp", v], check=True)
    venv = "/opt/venv"
    lib = subprocess.run([venv + "/bin/cocotb-config", "--libpython"], capture_output=True, text=True).stdout.strip()
    env = dict(os.environ, PATH=venv + "/bin:/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1", RANDOM_SEED="1",
               PYTHONPATH=os.getcwd() + ":" + here, MODULE="demo_test", TOPLEVEL="demo_top", TOPLEVEL_LANG="verilog",
               COCOTB_RESULTS_FILE=d + "/results.xml", COCOTB_LOG_LEVEL="WARNING", LIBPYTHON_LOC=lib,
               PYGPI_PYTHON_BIN=venv + "/bin/python")
    for k in ("TESTCASE", "PYTHONHOME"):
        env.pop(k, None)
    try:
        subprocess.run(["vvp", "-n", "-M", venv + "/lib/python3.12/site-packages/cocotb/libs", "-m", "libcocotbvpi_icarus",
                        d + "/top.vvp"], cwd=d, env=env, timeout=240)
    except subprocess.TimeoutExpired:
        print("demo: simulation hangs")
        sys.exit(1)
    if not os.path.exists(d + "/results.xml"):
        sys.exit(1)
    tc = list(ET.parse(d + "/results.xml").getroot().iter("testcase"))
    bad = [t.get("name") for t in tc if t.find("failure") is not None or t.find("error") is not None]
    print("tests", [t.get("name") for t in tc], "failed", bad)
    sys.exit(1 if bad or not tc else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)
