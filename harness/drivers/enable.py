"""Enabling and disabling functions and bridges of a discovered hierarchy through the host's device objects."""
from drivers import fabric
from cocotb.triggers import Timer


class EnableEnv(fabric.Env):
    def dev(self, f):
        return self.rc.find_device(self.fn(f).pcie_id)

    def fn(self, f):
        return next(t["o"] for t in self.truth if t["f"] == f)

    async def cmds(self):
        return [[t["f"], (await t["o"].read_config_register(1)) & 0xffff] for t in self.truth]

    async def op_cmds(self, s):
        for f, v in s["v"]:
            await self.dev(f).config_write_word(4, v)
        self.log("ctl0", cmd=await self.cmds())

    async def op_ctl(self, s):
        d, op = self.dev(s["f"]), s["a"]
        if op == "enable":
            await d.enable_device()
        elif op == "disable":
            await d.disable_device()
        elif op == "master":
            await d.set_master()
        elif op == "clear":
            await (d.clear_master() if s.get("v") else d.set_master(False))
        self.log("ctl", op=op, f=s["f"], cmd=await self.cmds())


async def run(dut, scn, log):
    e = EnableEnv(scn, log)
    e.build()
    await Timer(1, "ns")
    e.log_topo()
    await e.steps(scn["steps"])
    log("end")
