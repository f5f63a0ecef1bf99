"""C30: named constants and tile tables mean what the formats and the geometry say."""
import io
import json

from .core import observe
from .levels import nat

WHERE = {
    "LevelType": "level", "VariableType": "variable", "TileSpriteSet": "tile", "TileSide": "tile", "TileShape": "tile",
    "IntentStream": "replay", "MouseState": "replay", "Character": "replay", "CameraNodeType": "entity",
}


def enum(name):
    import importlib

    return getattr(importlib.import_module("dustmaker." + WHERE[name]), name)


def pair(p):
    return [nat(p[0]), nat(p[1])]


def level_trip(level):
    from dustmaker import DFReader, DFWriter

    buf = io.BytesIO()
    with DFWriter(buf, noclose=True) as w:
        w.write_level(level)
    with DFReader(io.BytesIO(buf.getvalue())) as r:
        return r.read_level()


def stored(name, member):
    """Stores the named value the way a user would; what number the file object holds and what name comes back."""
    from dustmaker.level import Level
    from dustmaker.tile import Tile
    from dustmaker.entity import CameraNode

    cls = enum(name)
    val = cls[member]
    if name == "Character":
        from dustmaker import DFReader, DFWriter
        from dustmaker.replay import PlayerData, Replay

        buf = io.BytesIO()
        with DFWriter(buf, noclose=True) as w:
            w.write_replay(Replay(version=4, players=[PlayerData(character=val)]))
        with DFReader(io.BytesIO(buf.getvalue())) as r:
            got = r.read_replay().players[0].character
        return nat(buf.getvalue()[17]), got.name
    level = Level()
    if name == "LevelType":
        level.level_type = val
        out = level_trip(level)
        return nat(out.variables["level_type"].value), cls(out.level_type).name
    if name == "CameraNodeType":
        ent = CameraNode()
        ent.node_type = val
        level.add_entity(10.0, 10.0, ent)
        got = [e for _x, _y, e in level_trip(level).entities.values()][0]
        return nat(got.variables["node_type"].value), cls(got.node_type).name
    tile = Tile(val) if name == "TileShape" else Tile(sprite_set=val)
    if name == "TileSpriteSet":
        tile.edge_data[0].solid = True
    level.tiles[19, 1, 1] = tile
    got = level_trip(level).tiles[19, 1, 1]
    got = got.shape if name == "TileShape" else got.sprite_set
    return nat(int(got)), got.name


def dispatch(c):
    from dustmaker import tile as T

    op = c["op"]
    if op == "enum":
        cls = enum(c["enum"])
        byname = [{"n": str(k), "v": nat(int(v))} for k, v in cls.__members__.items()]
        byvalue = []
        for v in c["values"]:
            got = observe(lambda v=v: cls(v).name)
            byvalue.append({"v": v, "n": str(got[1]) if got[0] == "ok" else "none"})
        return [dict(c, byname=byname, byvalue=byvalue)]
    if op == "shape":
        sh = c["sh"]
        verts = [pair(v) for v in T.SHAPE_VERTEXES[sh]]
        edges = []
        for side in (0, 1, 2, 3):
            i = T.SIDE_CLOCKWISE_INDEX[side] % 4
            edges.append([verts[i], verts[(i + 1) % 4]])
        return [dict(c, verts=verts, sides=[nat(int(s)) for s in T.SHAPE_ORDERED_SIDES[sh]], edges=edges)]
    if op == "cw":
        return [dict(c, cw=[nat(x) for x in T.SIDE_CLOCKWISE_INDEX])]
    if op == "dustblock":
        return [dict(c, tiles=[nat(x) for x in T.SPRITE_SET_DUSTBLOCK_TILE])]
    if op == "mouse":
        ms = enum("MouseState")
        return [dict(c, names=[str(k) for k, v in ms.__members__.items() if ms(c["v"]) & v == v])]
    got = observe(stored, c["enum"], c["name"])
    num, back = got[1] if got[0] == "ok" else (-1, "none")
    return [dict(c, num=num, back=str(back))]


def run(ctx):
    ctx.rules.append("all members of the nine enumerations by name and by number, all 21 shapes of the tile tables, all 32 mouse states, and every name of a stored enumeration through a write and a read; non-trivial: distinct member, shape or state")
    ctx.model_check("NamesMC", ctx.scale("NamesMC.cfg", "NamesMCdeep.cfg"))
    ctx.expect_violation("NamesMC", "NamesMut.cfg", "one shape listed from its flat side")
    table = {g["enum"]: g["members"] for g in ctx.generate("NamesTable", "NamesTable.cfg", count=False)}
    cases = [{"op": "cw"}, {"op": "dustblock"}]
    for name in WHERE:
        cases.append({"op": "enum", "enum": name, "values": sorted(m["v"] for m in table[name])})
    cases += [{"op": "shape", "sh": i} for i in range(21)]
    cases += [{"op": "mouse", "v": v} for v in range(32)]
    for name in ("LevelType", "TileShape", "TileSpriteSet", "Character", "CameraNodeType"):
        for m in table[name]:
            if (name, m["n"]) not in (("TileSpriteSet", "NONE_0"), ("TileSpriteSet", "NONE_7")):
                cases.append({"op": "stored", "enum": name, "name": m["n"]})
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(json.dumps(c, sort_keys=True))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("NamesTrace", [g for g in groups if g != ("crash",)])
    ctx.sample(cases[-1])
