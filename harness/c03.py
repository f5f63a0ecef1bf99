"""C03: variables survive writing and reading back."""
from . import varcases as vc


def run(ctx):
    ctx.rules.append("value trees enumerated by VarCodecMC (structs/arrays over all leaf types) and random trees (depth <= 4, all alignments, boundary strings 65534..3*65535, over-limit values); non-trivial: distinct case")
    ctx.model_check("VarCodecMC", ctx.scale("VarCodecMC.cfg", "VarCodecMCdeep.cfg"))
    gen = ctx.generate("VarCodecMC", "VarCodecGen.cfg", count=False)
    cases = [{"op": "var", "off": g["off"], "v": g["v"]} for g in gen[:: ctx.scale(4, 1)]]
    cases += vc.random_cases(ctx, ctx.scale(1200, 12000))
    cases += vc.long_strings(ctx) + vc.limits(ctx)
    for _ in range(ctx.scale(200, 3000)):
        cases.append({"op": "apx", "x": ctx.rng.choice([ctx.rng.uniform(-3, 3), ctx.rng.uniform(-1e9, 1e9), ctx.rng.gauss(0, 500), 0.1, -0.1, 1 / 3])})
    cases += vc.between()
    for _ in range(ctx.scale(100, 1500)):
        cases.append({"op": "file", "header": [68, 70, 95, 83, 84, 65], "v": vc.vals.rand_val(ctx.rng, 3, 14)})
    cases += vc.texts(ctx) + vc.bigs(ctx)
    cases += vc.hist_cases(ctx, ctx.scale(300, 4000))
    vc.judge(ctx, cases, ["rt-"])
    ctx.sample(cases[len(cases) // 3])
    ctx.sample(gen[len(gen) // 2])
