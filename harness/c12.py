"""C12: automatically assigned ids are never already in use."""
from . import ids


def run(ctx):
    ctx.rules.append("histories of up to 3 operations enumerated from LevelIdsMC and random histories of up to 25 operations on two levels and their backdrops, observed after every step; non-trivial: distinct history")
    ctx.model_check("LevelIdsMC", ctx.scale("LevelIdsMC.cfg", "LevelIdsMCdeep.cfg"))
    ctx.expect_violation("LevelIdsMC", "LevelIdsMut.cfg", "merge renumbers into the other level's range")
    rng = ctx.rng
    ids.check(ctx, ["ids-"], ctx.scale(4000, 10**6), [ids.rand_ops(rng, rng.randint(3, 25)) for _ in range(ctx.scale(500, 6000))])
