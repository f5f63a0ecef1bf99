"""C08: every supported file revision is read as the engine wrote it."""
from . import levels as lv


def mangle(rng, b):
    """a file that must be refused: wrong magic or too old a revision"""
    b = list(b)
    r = rng.random()
    if r < 0.35:
        i = rng.randrange(6)
        b[i] ^= 1 << rng.randrange(8)
    elif r < 0.6:
        i = 16 + rng.randrange(6)
        b[i] ^= 1 << rng.randrange(8)
    elif r < 0.9:
        v = rng.choice([0, 1, 41, 42, 42, rng.randrange(43)])
        b[6], b[7] = v, 0
    else:
        b = b[: rng.randrange(6)]
    return b


def run(ctx):
    ctx.rules.append("every level file of the bounded LevelFileMC model (level 43/44, segments 4..8, DUSTMOD or not, tiles, dust with and without tile, placeholders, extended names, slack, backdrop) plus random abstract files encoded by the specification, read by the code and compared with their meaning (read by the convenience function, by a reader, region by region, or by seeking to each region offset; metadata-only reads must give the same variables and thumbnail and nothing else); damaged magic/old revisions refused; non-trivial: distinct file")
    ctx.model_check("LevelFileMC", ctx.scale("LevelFileMC.cfg", "LevelFileMCdeep.cfg"))
    ctx.expect_violation("LevelFileMC", "LevelFileMut.cfg", "corner order lost on the bottom side")
    gen = [g["bytes"] for g in ctx.generate("LevelFileMC", ctx.scale("LevelFileGen.cfg", "LevelFileGenDeep.cfg"), count=False)]
    gen = gen if len(gen) < 8000 else ctx.rng.sample(gen, 8000)
    if not ctx.thorough:
        gen = ctx.rng.sample(gen, 1200)
    files = lv.encode_files(ctx, [lv.rand_file(ctx.rng) for _ in range(ctx.scale(500, 4000))] + [lv.big_file(ctx.rng, w) for w in lv.BIG_FILES * ctx.scale(1, 4)])
    cases = [("leg", {"bytes": b, "how": i % 4}) for i, b in enumerate(gen + files)]
    for _ in range(ctx.scale(100, 1000)):
        cases.append(("ref", {"bytes": mangle(ctx.rng, ctx.rng.choice(files))}))
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(bytes(c[1]["bytes"]))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("LevelTrace", [g for g in groups if g != ("crash",)], prefixes=["leg-"])
    ctx.sample({"file": files[0][:400]})


def dispatch(c):
    return {"leg": lv.do_leg, "ref": lv.do_ref}[c[0]](c[1])
