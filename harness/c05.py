"""C05: levels survive writing and reading back."""
from . import levels as lv


def clusters(rng):
    """full 16x16 layers and many objects in one place"""
    tiles = [lv.rand_tile(rng, lay, x, y) for lay in (19, 7) for x in range(-16, 0) for y in range(16)]
    return dict(lv.EMPTY, tiles=tiles, props=[lv.rand_prop(rng, i) for i in range(40)], ents=[lv.rand_ent(rng, i) for i in range(40)])


def singles(rng):
    """one object each at the borders of regions, segments and the coordinate space"""
    edge = [0, 1, -1, 15, 16, 17, -15, -16, -17, 255, 256, 257, -255, -256, -257, 8388607, -8388608, 4096, -4096]
    for x in edge:
        for y in rng.sample(edge, 4):
            yield dict(lv.EMPTY, tiles=[lv.rand_tile(rng, rng.choice([19, 0, 20]), x, y)])
    bedge = [0, 1, -1, 15, 16, -16, -17, 255, -256, 524287, -524288]
    for x in bedge:
        yield dict(lv.EMPTY, btiles=[lv.rand_tile(rng, rng.choice([19, 6]), x, rng.choice(bedge))])
    for name in sorted(lv.classes()) + lv.EXTRA_NAMES:
        e = lv.rand_ent(rng, rng.randrange(1000))
        e["ty"] = lv.vals.key(name)
        yield dict(lv.EMPTY, ents=[e])
    for lg in range(56):
        p = lv.rand_prop(rng, lg)
        p["lg"] = lg
        yield dict(lv.EMPTY, props=[p])


def bigs(rng):
    """counts and sizes beyond one byte (and, for the bytes themselves, two)"""
    def near(o):
        return dict(o, px=8 * rng.randint(0, 700), py=8 * rng.randint(-700, -60))

    def close(o):
        return dict(o, xi=rng.randint(0, 700), yi=rng.randint(60, 700), vars=o["vars"] if rng.random() < 0.1 else lv.EMPTY["vars"])

    n = rng.choice([257, 300])
    yield dict(lv.EMPTY, props=[near(lv.rand_prop(rng, i)) for i in range(n)], bprops=[near(lv.rand_prop(rng, i)) for i in range(n, 2 * n)])
    yield dict(lv.EMPTY, ents=[close(lv.rand_ent(rng, i)) for i in range(n)])
    yield dict(lv.EMPTY, tiles=[lv.rand_tile(rng, 19, 16 * i + 256 * k, 16 * j) for i in range(16) for j in range(16) for k in (0,)])
    yield dict(lv.EMPTY, tiles=[lv.rand_tile(rng, rng.choice([19, 3]), 256 * i + rng.randrange(256), 256 * rng.randint(-4, 4) + rng.randrange(256)) for i in range(-150, 150)])
    yield dict(lv.EMPTY, tiles=[lv.rand_tile(rng, lay, x, 5) for lay in range(21) for x in range(3)], btiles=[lv.rand_tile(rng, lay, x, 5) for lay in range(21) for x in range(2)])
    yield dict(lv.EMPTY, sshot=list(rng.randbytes(rng.choice([66000, 65536]))), tiles=[lv.rand_tile(rng, 19, 3, 3)])
    ents = [dict(lv.rand_ent(rng, i), xi=13000 * i, yi=-300) for i in range(4)]
    for e in ents:
        e["vars"] = {"t": 14, "kv": [{"k": lv.vals.key("blob"), "v": {"t": 5, "s": list(rng.randbytes(33000))}}]}
    yield dict(lv.EMPTY, ents=ents)
    yield dict(lv.EMPTY, vars={"t": 14, "kv": [{"k": lv.vals.key("v%d" % i), "v": lv.vals.rand_val(rng, 1)} for i in range(300)]
                               + [{"k": lv.vals.key("text"), "v": {"t": 5, "s": list(rng.randbytes(66000))}}]}, tiles=[lv.rand_tile(rng, 19, 300, 3), lv.rand_tile(rng, 19, 3, 3)])


def huge(rng):
    """more objects in one place than twelve bits count"""
    n = rng.choice([4097, 4200])
    yield dict(lv.EMPTY, props=[dict(lv.rand_prop(rng, i), px=8 * rng.randint(0, 700), py=8 * rng.randint(-700, -60)) for i in range(n)])
    yield dict(lv.EMPTY, ents=[dict(lv.rand_ent(rng, i), xi=rng.randint(0, 700), yi=rng.randint(60, 700), vars=lv.EMPTY["vars"]) for i in range(n)])


def apx_case(rng):
    pos = []
    for _ in range(6):
        kind = rng.choice("epb")
        lim = 4e8 if kind == "e" else 1.3e8
        pos.append((kind, *[rng.choice([rng.uniform(-3, 3), rng.uniform(-1000, 1000), rng.uniform(-lim, lim), -0.25, 0.999, -0.001]) for _ in range(2)]))
    return {"seed": rng.randrange(10**6), "pos": pos}


def contents(ctx, n):
    rng = ctx.rng
    cs = list(singles(rng)) + [clusters(rng) for _ in range(ctx.scale(1, 4))]
    for _ in range(ctx.scale(1, 4)):
        cs += list(bigs(rng))
    cs += [lv.rand_content(rng) for _ in range(n)]
    cs += [lv.rand_content(rng, 30) for _ in range(ctx.scale(5, 60))]
    return [lv.canon(c) for c in cs]


def histories(rng, n):
    out = []
    for _ in range(n):
        cs = [lv.canon(lv.rand_content(rng, rng.choice([1, 2, 4])))]
        for _ in range(rng.choice([1, 2, 3])):
            cs.append(lv.perturb(rng, cs[-1]))
        out.append({"cs": cs, "seed": rng.getrandbits(30)})
    return out


def run(ctx):
    ctx.rules.append("random levels (all 21 layers, shapes and every entity type; region, segment and coordinate-space borders; backdrop; all prop scale steps; shuffled insertion order) written, read back and compared as sets with the format's canonical content; levels written, changed in place (or read, then changed) and written again; non-trivial: non-empty level, distinct content")
    ctx.model_check("LevelFileMC", "LevelFileMC.cfg")
    ctx.expect_violation("LevelFileMC", "LevelFileMut.cfg", "corner order lost on the bottom side")
    cs = contents(ctx, ctx.scale(1500, 10000))
    cs += [lv.canon(c) for c in huge(ctx.rng)]
    items = [{"c": c, "shuffle": i} for i, c in enumerate(cs)]
    groups = ctx.pmap(lv.do_rt, items)
    apx = [apx_case(ctx.rng) for _ in range(ctx.scale(150, 2000))]
    groups += ctx.pmap(lv.do_apx, apx)
    hist = histories(ctx.rng, ctx.scale(250, 2500))
    groups += ctx.pmap(lv.do_hist, hist)
    for c in cs + [x["cs"][-1] for x in hist]:
        if any(c[k] for k in ("tiles", "props", "ents", "btiles", "bprops")):
            ctx.count(repr(c))
    for k, g in enumerate(groups):
        if g == ("crash",):
            ctx.violation(["crash"], (items + apx + hist)[k])
    ctx.judge("LevelTrace", [g for g in groups if g != ("crash",)], prefixes=["rt-"])
    ctx.sample(lv.rand_content(ctx.rng, 1))
