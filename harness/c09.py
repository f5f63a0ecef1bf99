"""C09: replays survive writing and reading back, frame by frame."""
from . import replays as rp


def run(ctx):
    ctx.rules.append("every run structure of the bounded ReplayMC model (lengths around 255/510, all orders) and random replays (versions 1/3/4, 0-4 players, all eleven streams) written and read back; values compared for every frame through the lists and get_intent_value; non-trivial: distinct replay")
    ctx.model_check("ReplayMC", ctx.scale("ReplayMC.cfg", "ReplayMCdeep.cfg"))
    ctx.expect_violation("ReplayMC", "ReplayMut.cfg", "runs cut after 256 frames")
    rng = ctx.rng
    gen = [g for g in ctx.generate("ReplayMC", ctx.scale("ReplayGen.cfg", "ReplayGenDeep.cfg"), count=False) if g["mode"] == "runs"]
    gen = gen if len(gen) < 4000 else rng.sample(gen, 4000)
    cases = [("rt", {"a": rp.from_gen(g, rng), "force": False, "tail": [], "fmt": False}) for g in gen]
    for _ in range(ctx.scale(700, 8000)):
        cases.append(("rt", {"a": rp.rand_replay(rng, small=rng.random() < 0.3), "force": rng.random() < 0.2, "tail": [1, 2, 3] if rng.random() < 0.3 else [], "fmt": False}))
    for what in rp.BIG * ctx.scale(1, 6):
        cases.append(("rt", {"a": rp.big_replay(rng, what), "force": False, "tail": [], "fmt": False}))
    for _ in range(ctx.scale(200, 3000)):
        cases.append(("apx", {"v": [rng.uniform(-1e6, 1e6), rng.gauss(0, 3), rng.gauss(0, 900), rng.uniform(-1e5, 1e5), rng.random()]}))
    cases += [rp.hist_case(rng, False) for _ in range(ctx.scale(200, 2000))]
    rp.run_cases(ctx, cases, ["rp-"])
    ctx.sample(rp.rand_replay(rng, small=True))
