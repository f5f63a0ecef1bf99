"""C04: the wire format of variables, floats, text and variable files."""
from . import varcases as vc
from . import vals


def run(ctx):
    ctx.rules.append("spec-encoded streams read by the code and code-written streams parsed by the spec, bit for bit; non-trivial: distinct case")
    gen = ctx.generate("VarCodecMC", ctx.scale("VarCodecGen.cfg", "VarCodecGenDeep.cfg"))
    step = ctx.scale(1, 8)
    cases = []
    for i, g in enumerate(gen[::step]):
        # the specification's own encoding, read by the code ...
        cases.append({"op": "dec", "bytes": g["bytes"] + [0xF0], "off": g["off"], "ty": g["v"]["t"]})
        # ... and the code's encoding compared with the specification's
        if i % 2 == 0:
            cases.append({"op": "var", "off": g["off"], "v": g["v"]})
    rng = ctx.rng
    for _ in range(ctx.scale(600, 6000)):
        cases.append({"op": "var", "off": rng.randrange(8), "v": vals.rand_val(rng, rng.choice([0, 1, 2, 3]))})
    for _ in range(ctx.scale(150, 1500)):
        header = rng.choice([b"DF_STA", b"DF_CFG", b"DF_FOG", b"", b"X"])
        cases.append({"op": "file", "header": list(header), "v": vals.rand_val(rng, 3, 14)})
    cases += vc.texts(ctx) + vc.fixes(ctx) + vc.long_strings(ctx)[: ctx.scale(9, 99)] + vc.limits(ctx)
    cases += vc.between()
    cases += vc.hist_cases(ctx, ctx.scale(300, 4000))
    vc.judge(ctx, cases, ["enc-", "dec-", "rt-float-resolution"])
    ctx.sample(gen[len(gen) // 2])
    ctx.sample(cases[-30])
