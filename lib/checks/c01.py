from .linkscen import *


def run(ctx):
    g = ctx.rng
    go(ctx, ctx.pick(["flow"], ["flow", "classes", "handshake", "handshake2"]),
       pair(g, ctx.pick(24, 300)) + held(g, ctx.pick(4, 40)) + wrap(g, ctx.pick(2, 8)) + skew(g, ctx.pick(4, 40))
       + gen_scripts(ctx, ctx.pick(40, 600)) + gen_scripts(ctx, ctx.pick(2, 24), warm=1372))
