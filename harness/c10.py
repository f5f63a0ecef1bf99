"""C10: replay files follow the Dustforce replay format."""
from . import replays as rp


def run(ctx):
    ctx.rules.append("written replays decoded by the specification's own reader; files encoded by the specification with arbitrary legal tokenisations (zero and split runs, padding, name header) read with and without known length and with trailing data; unknown versions and player counts refused; non-trivial: distinct replay or file")
    ctx.model_check("ReplayMC", ctx.scale("ReplayFileMC.cfg", "ReplayFileMCdeep.cfg"))
    ctx.expect_violation("ReplayMC", "ReplayMut.cfg", "runs cut after 256 frames")
    rng = ctx.rng
    gen = ctx.generate("ReplayMC", ctx.scale("ReplayGen.cfg", "ReplayGenDeep.cfg"), count=False)
    gen = rng.sample(gen, ctx.scale(250, 2500))
    cases = [("rt", {"a": rp.rand_replay(rng, small=rng.random() < 0.3), "force": rng.random() < 0.3, "tail": [], "fmt": True}) for _ in range(ctx.scale(450, 5000))]
    for _ in range(ctx.scale(30, 200)):
        a = rp.rand_replay(rng)
        if rng.random() < 0.5:
            a["ver"] = rng.choice([0, 2, 5, 6, 9])
        else:
            a["ver"] = 1
            a["players"] = [{"ch": 0, "st": []}] * rng.choice([0, 2, 3])
        cases.append(("rt", {"a": a, "force": rng.random() < 0.3, "tail": [], "fmt": False}))
    files = [rp.rand_file(rng) for _ in range(ctx.scale(350, 4000))]
    for g in gen:
        a = rp.rand_file(rng, rp.from_gen(g, rng))
        a["toks"][0][g["intent"] - 1] = g["toks"]
        files.append(a)
    for what in rp.BIG * ctx.scale(1, 4):
        cases.append(("rt", {"a": rp.big_replay(rng, what), "force": False, "tail": [], "fmt": True}))
        if what != "raw":
            files.append(rp.rand_file(rng, rp.big_replay(rng, what)))
    encoded = rp.encode(ctx, files)
    for b in encoded:
        cases.append(("dec", {"bytes": b, "tail": [rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 20]))], "pre": rng.choice([0, 0, 3])}))
    for b in rng.sample(encoded, ctx.scale(80, 600)):
        b = list(b)
        h = 9 + b[7] + 256 * b[8] if b[6] == 50 else 0
        r = rng.random()
        if r < 0.3:
            b[rng.randrange(6)] ^= 1 << rng.randrange(8)
        elif r < 0.5:
            b[h + rng.randrange(6)] ^= 1 << rng.randrange(8)
        else:
            b[h + 6] = rng.choice([48, 53, 57, 0, 255, 47, 50] if h else [48, 53, 57, 0, 255, 47])
        if b[6] == 50 and h == 0:
            continue
        cases.append(("ref", {"bytes": b}))
    cases += [rp.hist_case(rng, True) for _ in range(ctx.scale(60, 2000))]
    rp.run_cases(ctx, cases, ["fmt-"])
    ctx.sample({"file": encoded[0][:300]})
