"""C13: remapping and merging keep every object and every reference."""
from . import ids


def history(rng):
    """levels with content, then renumbering and merging"""
    ops = []
    for w in (1, 2):
        ops += [{"op": "tiles", "w": w, "n": rng.randint(1, 8)}] if rng.random() < 0.7 else []
        ops += [{"op": "add", "w": w, "k": rng.choice("pbeee"), "id": rng.choice([-1, -1, rng.randint(100, 112), rng.choice([1, 2, 3, 9000])])} for _ in range(rng.randint(0, 9))]
    rng.shuffle(ops)
    if rng.random() < 0.15:
        ops.append({"op": "nobd", "w": rng.choice([1, 2, 2])})
    ops.append({"op": "remap", "w": rng.choice([1, 2]), "min": rng.choice([100, 103, 107, 5000])} if rng.random() < 0.5
               else {"op": "merge", "remap": rng.random() < 0.8})
    return ops + ids.rand_ops(rng, rng.randint(0, 8))


def run(ctx):
    ctx.rules.append("histories as in C12 plus levels with content and mutual references renumbered and merged; objects identified by their full content except id and references; non-trivial: distinct history")
    ctx.model_check("LevelIdsMC", ctx.scale("LevelIdsMC.cfg", "LevelIdsMCdeep.cfg"))
    ctx.expect_violation("LevelIdsMC", "LevelIdsMut.cfg", "merge renumbers into the other level's range")
    ids.check(ctx, ["map-"], ctx.scale(2500, 10**6), [history(ctx.rng) for _ in range(ctx.scale(900, 8000))])
