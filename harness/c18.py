"""C18: computed edge visibility follows the documented rules everywhere."""
from . import edges


def dispatch(c):
    return edges.do_case(c)


def pairs(rng):
    """every ordered pair of shapes side by side and on top of each other, same and different sprite, laid out with gaps"""
    todo = [(a, b, d, same) for a in range(21) for b in range(21) for d in ((1, 0), (0, 1)) for same in (0, 1)]
    rng.shuffle(todo)
    for i in range(0, len(todo), 12):
        ts = []
        for j, (a, b, d, same) in enumerate(todo[i : i + 12]):
            x, y = 3 * (j % 4) - 4, 3 * (j // 4) - 4
            lk = rng.choice(edges.LOOKS)
            lk2 = lk if same else rng.choice([z for z in edges.LOOKS if z != lk])
            ts.append(edges.tile(rng, (19, x, y), a, lk, False))
            ts.append(edges.tile(rng, (19, x + d[0], y + d[1]), b, lk2, False))
        yield ts


def run(ctx):
    ctx.rules.append("every ordered pair of shapes in both directions with equal and different sprites; every neighbourhood printed by the model; random dense patches over one or two layers; with and without a callback; each computed twice; non-trivial: distinct tiling")
    ctx.model_check("EdgeRulesMC", ctx.scale("EdgeRulesMC.cfg", "EdgeRulesMCdeep.cfg"))
    ctx.expect_violation("EdgeRulesMC", "EdgeRulesMut.cfg", "sign of the join angle not reversed with the direction of travel")
    gen = ctx.generate("EdgeRulesMC", "EdgeRulesGen.cfg")
    rng = ctx.rng
    cases = []
    for _ in range(ctx.scale(1, 4)):
        for ts in pairs(rng):
            cases.append({"tiles": ts, "ops": ["vis"], "cb": rng.random() < 0.5, "seed": rng.getrandbits(30)})
    for g in gen:
        if ctx.thorough or rng.random() < 0.4:
            ts = [edges.tile(rng, tuple(c), sh, edges.LOOKS[lk], False) for c, sh, lk, _f in g]
            cases.append({"tiles": ts, "ops": ["vis"], "cb": False, "seed": rng.getrandbits(30)})
    for _ in range(ctx.scale(700, 8000)):
        cases.append({"tiles": edges.patch(rng, False), "ops": ["vis", "vis"], "cb": rng.random() < 0.5, "seed": rng.getrandbits(30)})
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(repr(c["tiles"]))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("EdgeTrace", [g for g in groups if g != ("crash",)])
    ctx.sample(cases[-1])
