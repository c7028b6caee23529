from .linkscen import *


def run(ctx):
    g = ctx.rng
    go(ctx, ctx.pick(["flow", "live_flow"], ["flow", "classes", "live_flow", "live_init"]),
       pair(g, ctx.pick(20, 300)) + held(g, ctx.pick(16, 160)) + wrap(g, ctx.pick(2, 8))
       + gen_scripts(ctx, ctx.pick(40, 600)) + gen_scripts(ctx, ctx.pick(2, 24), warm=1372))
