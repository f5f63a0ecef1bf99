"""C06: level files are well-formed containers."""
from . import c05
from . import c07
from . import levels as lv


def run(ctx):
    ctx.rules.append("random levels written and the bytes decoded by the specification's own reader (sizes, directory, order, placement, counts, totals, next id, content); metadata-only rewrites for the next-id field; non-trivial: non-empty level, distinct content")
    ctx.model_check("LevelFileMC", "LevelFileMC.cfg")
    ctx.expect_violation("LevelFileMC", "LevelFileMut.cfg", "corner order lost on the bottom side")
    cs = c05.contents(ctx, ctx.scale(350, 4000))
    # a spike needs a filth sprite: an edge flagged as spike without one is not
    # representable in the format and has no defined surface contribution
    hist = c05.histories(ctx.rng, ctx.scale(50, 600))
    for c in cs + [x for h in hist for x in h["cs"]]:
        for t in c["tiles"] + c["btiles"]:
            for e in t["e"]:
                if e[6] == 0:
                    e[7] = 0
    items = [{"c": c, "shuffle": i, "wf": True} for i, c in enumerate(cs)]
    for c in cs[:: ctx.scale(12, 6)]:  # enemies of the user's own
        c = dict(c, ents=[dict(e, ty=lv.vals.key(ctx.rng.choice(lv.FOES))) if ctx.rng.random() < 0.5 else e for e in c["ents"]])
        items.append({"c": c, "shuffle": len(items), "wf": True, "foes": True})
    groups = ctx.pmap(lv.do_rt, items)
    for c in cs:
        if any(c[k] for k in ("tiles", "props", "ents", "btiles", "bprops")):
            ctx.count(repr(c))
    meta = [c07.meta_case(ctx.rng) for _ in range(ctx.scale(60, 600))]
    groups += ctx.pmap(c07.do_meta, meta)
    groups += ctx.pmap(lv.do_hist, [dict(h, wf=True) for h in hist])
    for k, g in enumerate(groups):
        if g == ("crash",):
            ctx.violation(["crash"], (items + meta + hist)[k])
    ctx.judge("LevelTrace", [g for g in groups if g != ("crash",)], prefixes=["wf-"])
    ctx.sample(lv.rand_content(ctx.rng, 1))
