"""C23: array variables and accessors are typed views of the variables."""
import json

from . import arrays as A
from . import accessors as X


def run(ctx):
    ctx.rules.append("every history of three list operations on arrays of up to two elements (VarSeqMC) over values of all eight element types, random histories of up to 40 operations with refused values, arrays of up to 300 elements and elements of up to 300 parts; every accessor of every class with reads, writes, refused writes, deletions, foreign values and array edits (AccessMC histories and random ones); non-trivial: distinct histories")
    ctx.assumptions.append("slices are only used for deletion; NaN is not used as an element")
    ctx.model_check("VarSeqMC", ctx.scale("VarSeqMC.cfg", "VarSeqMCdeep.cfg"))
    ctx.expect_violation("VarSeqMC", "VarSeqMut.cfg", "a set that stores another type")
    rng = ctx.rng
    hists = [g["hist"] for g in ctx.generate("VarSeqMC", "VarSeqGen.cfg", count=False)]
    if not ctx.thorough:
        hists = rng.sample(hists, 5000)
    types = [1, 2, 3, 4, 5, 10, 14, 15]
    cases = [{"ops": A.from_spec(rng, h, types[i % 8]), "et": types[i % 8], "seed": rng.getrandbits(30)} for i, h in enumerate(hists)]
    for _ in range(ctx.scale(1200, 20000)):
        et = rng.choice(types)
        cases.append({"ops": A.rand_ops(rng, et, rng.choice([4, 10, 40])), "et": et, "seed": rng.getrandbits(30)})
    for i in range(ctx.scale(24, 80)):
        et = types[i % 8]
        cases.append({"ops": A.long_ops(rng, et), "et": et, "seed": rng.getrandbits(30)})
    groups = ctx.pmap(A.run_history, cases)
    for c, g in zip(cases, groups):
        ctx.count(json.dumps(c, sort_keys=True))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    good = [g for g in groups if g != ("crash",)]
    ctx.judge("SeqTrace", good)
    if good:
        ctx.sample([e["op"] for e in good[-1]])
    X.run(ctx)
