"""C15: tile transforms are the geometric symmetries of the tile."""
from .tiles import SYM, do_seq, rand_tile


def dispatch(c):
    return do_seq(c)


def run(ctx):
    ctx.rules.append("every shape under every word of length up to 2 in the eight symmetries (from the model), plus random words up to length 6 with scaled and translated matrices and random edge data; non-trivial: distinct (tile, word)")
    ctx.model_check("TileGeomMC", ctx.scale("TileGeomMC.cfg", "TileGeomMCdeep.cfg"))
    ctx.expect_violation("TileGeomMC", "TileGeomMut.cfg", "reflection applied to the edge data twice")
    gen = ctx.generate("TileGeomMC", "TileGeomGen.cfg")
    rng = ctx.rng
    cases = []

    def mats(w):
        return [(g, *rng.choice([(1, 0, 0), (1, 0, 0), (1, 48 * rng.randint(-9, 9), 24.5), (2, -3, 7), (0.5, 0, 1), (rng.uniform(0.01, 60), rng.uniform(-1e4, 1e4), 5)]), rng.random() < 0.3)
                for g in w]

    for b in gen:
        for _ in range(ctx.scale(2, 8)):
            cases.append({"t": rand_tile(rng, b["sh"]), "ms": mats(b["w"])})
    for _ in range(ctx.scale(2500, 25000)):
        cases.append({"t": rand_tile(rng, rng.randrange(21)), "ms": mats([rng.choice(SYM) for _ in range(rng.randint(1, 6))])})
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(repr(c))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("TileTrace", [g for g in groups if g != ("crash",)])
    ctx.sample(cases[-1])
