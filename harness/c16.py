"""C16: level transforms move every element by the same isometry."""
from . import levtx


def dispatch(c):
    return levtx.do_history(c)


def run(ctx):
    ctx.rules.append("every word of length 2 in the isometries of the model on random levels, random histories of flips, turns, shifts and transforms (whole, half and odd shifts), also on levels loaded from files and saved in between; non-trivial: distinct (level, history)")
    ctx.assumptions.append("coordinates up to 2^20 pixels on a 1/8 pixel grid, so that the arithmetic is exact in doubles and in TLC")
    ctx.model_check("LevelTxMC", ctx.scale("LevelTxMC.cfg", "LevelTxMCdeep.cfg"))
    ctx.expect_violation("LevelTxMC", "LevelTxMut.cfg", "image of the top left corner taken for the cell of the image")
    gen = ctx.generate("LevelTxMC", "LevelTxGen.cfg")
    rng = ctx.rng
    cases = []
    for b in gen:
        cases.append({"lev": levtx.rand_level(rng, 2), "seed": rng.getrandbits(30),
                      "ops": [{"op": "transform", "g": m["g"], "x": m["x"], "y": m["y"]} for m in b["w"]]})
    for _ in range(ctx.scale(1200, 12000)):
        cases.append({"lev": levtx.rand_level(rng), "seed": rng.getrandbits(30), "ops": [levtx.rand_op(rng) for _ in range(rng.randint(1, 4))]})
    cases += [levtx.saved_history(rng) for _ in range(ctx.scale(150, 2000))]
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(repr(c))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("LevelTxTrace", [g for g in groups if g != ("crash",)])
    ctx.sample({"ops": cases[-1]["ops"]})
