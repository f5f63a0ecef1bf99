"""C27: tiles report their sprite, filth and dustblock state correctly."""
import json

from . import levels as lv
from .core import observe


def dispatch(c):
    from dustmaker.tile import Tile, TileShape, TileSpriteSet

    t = lv.build_tile(c["tile"])
    evs = []
    for o in c["ops"]:
        e = {"op": o["op"], "t0": lv.proj_tile(t), "b": False, "s": "", "sp": o.get("sp", []), "err": ""}
        op = o["op"]

        def act():
            nonlocal t
            if op == "filth":
                e["b"] = t.has_filth() is True
            elif op == "isblock":
                e["b"] = t.is_dustblock() is True
            elif op == "path":
                e["s"] = str(t.sprite_path)
            elif op == "sprite":
                e["sp"] = [lv.nat(x) for x in t.get_sprite_tuple()]
            elif op == "setsprite":
                t.set_sprite_tuple((TileSpriteSet(o["sp"][0]), o["sp"][1], o["sp"][2]))
            elif op == "block":
                t.set_dustblock()
            elif op == "blank":
                t = Tile(TileShape(int(t.shape)), tile_flags=t.tile_flags, sprite_set=t.sprite_set, sprite_tile=t.sprite_tile, sprite_palette=t.sprite_palette)

        got = observe(act)
        e["ok"] = got[0] == "ok"
        if got[0] == "exc" and "ValueError" in got[1]:
            e["err"] = "value"
        e["t1"] = lv.proj_tile(t)
        evs.append(e)
    return evs


QUERIES = [{"op": "filth"}, {"op": "isblock"}, {"op": "sprite"}]


def run(ctx):
    ctx.rules.append("every sprite set with every tile index and all palettes for the dustblock and path queries, filth on every subset of edges (TileQueryMC), random tiles under histories of sprite changes; non-trivial: distinct (tile, operations)")
    ctx.model_check("TileQueryMC", ctx.scale("TileQueryMC.cfg", "TileQueryMCdeep.cfg"))
    ctx.expect_violation("TileQueryMC", "TileQueryMut.cfg", "a dustblock that keeps its palette")
    rng = ctx.rng
    cases = []
    path = [{"op": "path"}]
    for g in ctx.generate("TileQueryMC", "TileQueryGen.cfg", count=False):
        cases.append({"tile": g["tile"], "ops": QUERIES + [{"op": "block"}] + QUERIES + path * (g["tile"]["ss"] in range(1, 7))})

    def tile(**k):
        t = {x: v for x, v in lv.rand_tile(rng, 0, 0, 0).items() if x not in "lxy"}
        t.update(k)
        return t

    for ss in range(8):
        for st in range(0, 256):
            if st > 30 and not ctx.thorough and st % 16:
                continue
            cases.append({"tile": tile(ss=ss, st=st), "ops": QUERIES + path * (1 <= ss <= 6)})
        for sp in range(16):
            cases.append({"tile": tile(ss=ss, sp=sp), "ops": path * (1 <= ss <= 6) + [{"op": "block"}, {"op": "isblock"}, {"op": "blank"}, {"op": "filth"}]})
    for mask in range(16):
        for f in range(1, 8):
            e = [[rng.randrange(2), rng.randrange(2), 0, 1, 5, 6, f if mask >> s & 1 else 0, rng.randrange(2), rng.randrange(2), rng.randrange(2), 3, 4] for s in range(4)]
            cases.append({"tile": tile(e=e), "ops": QUERIES})
    for _ in range(ctx.scale(1000, 20000)):
        ops = []
        for _ in range(rng.choice([2, 6, 12])):
            ops.append(rng.choice(QUERIES + [{"op": "block"}, {"op": "blank"}, {"op": "setsprite", "sp": [rng.randrange(8), rng.choice([2, 6, 9, 13, 21, rng.randrange(256)]), rng.randrange(16)]}]))
        cases.append({"tile": tile(), "ops": ops})
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(json.dumps(c, sort_keys=True))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    good = [g for g in groups if g != ("crash",)]
    ctx.judge("TileQueryTrace", good)
    ctx.sample(cases[-1])
