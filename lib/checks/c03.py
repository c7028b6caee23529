from .linkscen import *


def run(ctx):
    g = ctx.rng
    go(ctx, ctx.pick(["handshake", "live_init"], ["handshake", "handshake2", "live_init"]),
       skew(g, ctx.pick(48, 500)) + gen_scripts(ctx, ctx.pick(60, 800), depth=40) + gen_scripts(ctx, ctx.pick(20, 300), depth=120))
