"""Edge visibility and caps of small tilings (C18, C19)."""
import random

from . import levels as L
from .core import observe
from .tiles import has_edges, rich_edge


def look(t):
    return [L.nat(t.sprite_set), L.nat(t.sprite_tile), L.nat(t.sprite_palette)]


def fill(rng, t, visible):
    """random edge data on the edges the shape has; visible: caps are about to be computed"""
    out = []
    for s in range(4):
        if s not in has_edges(t["sh"]):
            # a leftover of another shape may linger until visibility is computed
            out.append(rich_edge(rng) if not visible and rng.random() < 0.3 else [0] * 12)
            continue
        e = rich_edge(rng) if rng.random() < 0.6 else [0] * 12
        if visible:
            e[1] = int(rng.random() < 0.85)
            e[0] = int(rng.random() < 0.7 if e[1] else rng.random() < 0.2)
            e[6], e[7] = rng.choice([0, 1, 1, 2, rng.randrange(8)]), rng.randrange(2)
        out.append(e)
    t["e"] = out
    return t


LOOKS = [(1, 1, 0), (1, 1, 1), (1, 2, 0), (2, 1, 0)]


def tile(rng, k, sh, lk, visible):
    return fill(rng, {"l": k[0], "x": k[1], "y": k[2], "sh": sh, "fl": rng.choice([4, rng.randrange(8)]), "ss": lk[0], "st": lk[1], "sp": lk[2]}, visible)


def patch(rng, visible, size=None, shapes=None):
    """a dense patch, mostly one sprite, sometimes several layers"""
    w = size or rng.choice([2, 3, 3, 4])
    ox, oy = rng.choice([(0, 0), (-2, -1), (rng.randint(-300, 300), rng.randint(-300, 300))])
    looks = LOOKS[: rng.choice([1, 1, 2, 4])]
    if rng.random() < 0.3:
        base = (rng.randrange(8), rng.randrange(256), rng.randrange(16))
        looks = [base, (rng.randrange(8), base[1], base[2]), (base[0], rng.randrange(256), base[2]), (base[0], base[1], rng.randrange(16))]
    layers = rng.choice([[19], [18, 19], [19, 20], [rng.randrange(21)], rng.sample(range(21), 2), rng.sample(range(21), 3), [19, rng.randrange(19)]])
    shapes = shapes or rng.choice([list(range(21)), list(range(21)), [0, 17, 18, 19, 20], [0, 1, 2, 9, 10], [0, 3, 4, 7, 8, 11, 12, 15, 16]])
    full = rng.choice([0.5, 0.8, 1])
    return [tile(rng, (ly, ox + x, oy + y), rng.choice(shapes), rng.choice(looks), visible)
            for ly in layers for x in range(w) for y in range(w) if rng.random() < full]


def do_case(c):
    from dustmaker.level import Level

    rng = random.Random(c["seed"])
    level = Level()
    order = list(c["tiles"])
    rng.shuffle(order)
    for t in order:
        level.tiles[(t["l"], t["x"], t["y"])] = L.build_tile(t)
    via = rng.choice(["", "", "", "file", "backdrop"])
    if via == "backdrop":  # a backdrop is a level, too
        top = level
        level = top.backdrop
        level.tiles.update(top.tiles)
    elif via == "file":
        res = L.write_level(level)
        res = L.read_level(res[1]) if res[0] == "ok" else res
        level = res[1] if res[0] == "ok" else level
    out = []
    for k, op in enumerate(c["ops"]):
        if k and level.tiles and rng.random() < 0.25:
            # edited in between: a tile goes, another changes its look or its shape
            del level.tiles[rng.choice(sorted(level.tiles))]
            for key in rng.sample(sorted(level.tiles), min(1, len(level.tiles))):
                level.tiles[key].sprite_tile, level.tiles[key].sprite_palette = rng.choice([1, 2]), 0
                if op != "caps":
                    level.tiles[key].shape = type(level.tiles[key].shape)(rng.randrange(21))
        before = L.proj_tiles(level.tiles)
        calls = []

        def cb(x, y, side, tile_, ntile):
            ret = random.Random(repr((c["seed"], x, y, int(side), look(tile_), look(ntile)))).random() < 0.5
            calls.append({"x": L.nat(int(x)), "y": L.nat(int(y)), "s": int(side), "look": look(tile_), "nlook": look(ntile), "ret": ret})
            return ret

        def go():
            if op == "caps":
                level.calculate_edge_caps()
            elif c["cb"]:
                level.calculate_edge_visibility(visible_callback=cb)
            else:
                level.calculate_edge_visibility()

        res = observe(go)
        e = {"op": op, "out": L.oc(res), "before": before, "after": L.proj_tiles(level.tiles)}
        if op == "vis":
            e.update(cb=c["cb"], calls=calls)
        out.append(e)
        if res[0] != "ok":
            break
    return out
