from .linkscen import *


def run(ctx):
    g = ctx.rng
    go(ctx, ctx.pick(["dll"], ["dll", "flow", "live_flow"]),
       pair(g, ctx.pick(16, 200)) + wrap(g, ctx.pick(3, 8))
       + gen_scripts(ctx, ctx.pick(40, 600)) + gen_scripts(ctx, ctx.pick(4, 32), warm=1372))
