"""C17: upscaling reproduces the enlarged outline and its edges exactly."""
from . import levtx
from .tiles import SYM, do_up, rand_tile


def dispatch(c):
    return do_up(c) if c["op"] == "tile" else levtx.do_history(c)


def run(ctx):
    top = ctx.scale(8, 16)
    ctx.rules.append("every shape and factor 1..%d with random edge data; random levels upscaled by 2..4 with every symmetry and shifts, alone and among other transforms; non-trivial: distinct case" % top)
    ctx.model_check("TileUpMC", ctx.scale("TileUpMC.cfg", "TileUpMCdeep.cfg"))
    ctx.expect_violation("TileUpMC", "TileUpMut.cfg", "data of an interior edge copied from the original edge")
    if ctx.thorough:
        ctx.model_check("LevelTxMC", "LevelUpMCdeep.cfg")
    else:
        ctx.model_check("LevelTxMC", "LevelUpMC.cfg")
    rng = ctx.rng
    tiles = []
    for f in range(1, top + 1):
        for sh in range(21):
            for _ in range(ctx.scale(8, 20) if f < 6 else ctx.scale(2, 5)):
                tiles.append({"op": "tile", "t": rand_tile(rng, sh, True), "f": f})
    levels = []
    for i in range(ctx.scale(160, 1500)):
        f = rng.choice([2, 2, 3, 4])
        up = {"op": "upscale", "f": f, "g": rng.choice(SYM) if i % 3 else SYM[0], "x": levtx.shift(rng) if i % 2 else 0, "y": levtx.shift(rng) if i % 2 else 0}
        ops = [up]
        if rng.random() < 0.3:
            ops.insert(rng.randint(0, 1), levtx.rand_op(rng))
        levels.append({"op": "level", "lev": levtx.rand_level(rng), "seed": rng.getrandbits(30), "ops": ops})
    levels += [levtx.saved_history(rng, True) for _ in range(ctx.scale(25, 300))]
    groups = ctx.pmap(dispatch, tiles + levels)
    for c, g in zip(tiles + levels, groups):
        ctx.count(repr(c))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    n = len(tiles)
    ctx.judge("TileUpTrace", [g for g in groups[:n] if g != ("crash",)], cfg=ctx.scale("TileUpTrace.cfg", "TileUpTraceDeep.cfg"), shards=ctx.scale(4, 8))
    ctx.judge("LevelTxTrace", [g for g in groups[n:] if g != ("crash",)], cfg="LevelUpTrace.cfg", shards=ctx.scale(5, 8))
    ctx.sample(tiles[-1])
