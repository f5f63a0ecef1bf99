"""C19: computed edge caps and join angles follow the documented rules everywhere."""
from . import edges


def dispatch(c):
    return edges.do_case(c)


def corners(rng, n):
    """a tile and the three cells around one of its corners: full cover of corner situations over time"""
    for _ in range(n):
        cx, cy = rng.choice([-1, 1]), rng.choice([-1, 1])
        lk = edges.LOOKS[0]
        cells = [(0, 0), (cx, 0), (cx, cy), (0, cy)]
        yield [edges.tile(rng, (19, x, y), rng.randrange(21), lk if rng.random() < 0.92 else edges.LOOKS[1], True) for x, y in cells if (x, y) == (0, 0) or rng.random() < 0.85]


def run(ctx):
    ctx.rules.append("every neighbourhood printed by the model after computing visibility; random corners (a tile and the three cells around a corner) and dense patches with arbitrary visibility and filth; computed twice; non-trivial: distinct tiling")
    ctx.model_check("EdgeRulesMC", ctx.scale("EdgeRulesMC.cfg", "EdgeRulesMCdeep.cfg"))
    ctx.expect_violation("EdgeRulesMC", "EdgeRulesMut.cfg", "sign of the join angle not reversed with the direction of travel")
    gen = ctx.generate("EdgeRulesMC", "EdgeRulesGen.cfg")
    rng = ctx.rng
    cases = []
    for g in gen:
        if ctx.thorough or rng.random() < 0.4:
            ts = [edges.tile(rng, tuple(c), sh, edges.LOOKS[lk], False) for c, sh, lk, _f in g]
            cases.append({"tiles": ts, "ops": ["vis", "caps", "caps"], "cb": False, "seed": rng.getrandbits(30)})
    for ts in corners(rng, ctx.scale(3500, 40000)):
        cases.append({"tiles": ts, "ops": ["caps"], "cb": False, "seed": rng.getrandbits(30)})
    for _ in range(ctx.scale(400, 5000)):
        cases.append({"tiles": edges.patch(rng, True), "ops": ["caps", "caps"], "cb": False, "seed": rng.getrandbits(30)})
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(repr(c["tiles"]))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("EdgeTrace", [g for g in groups if g != ("crash",)], prefixes=["caps"])
    ctx.sample(cases[-1])
