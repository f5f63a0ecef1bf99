"""Tile drivers shared by C15 and C17."""
from . import levels as L
from .core import observe

SYM = [[1, 0, 0, 1], [0, -1, 1, 0], [-1, 0, 0, -1], [0, 1, -1, 0], [-1, 0, 0, 1], [1, 0, 0, -1], [0, 1, 1, 0], [0, -1, -1, 0]]


def matrix(g, k=1, tx=0, ty=0, flat=False):
    """a matrix with the given linear part, scale and offset, made directly"""
    from dustmaker.transform import TxMatrix

    rows = ((g[0] * k, g[1] * k, tx), (g[2] * k, g[3] * k, ty), (0, 0, 1))
    return TxMatrix([list(r) for r in rows] if flat else rows)


# edges each shape has (the outline in TileGeom.tla; only used to leave the
# meaningless ones blank, the judge computes its own)
def has_edges(sh):
    v = VERTS[sh]
    out = set()
    for side, cw in enumerate((0, 2, 3, 1)):
        a, b = v[cw], v[(cw + 1) % 4]
        if abs(a[0] - b[0]) + abs(a[1] - b[1]) > 1:
            out.add(side)
    return out


VERTS = [((0, 0), (2, 0), (2, 2), (0, 2)),
         ((0, 0), (2, 1), (2, 2), (0, 2)), ((0, 1), (2, 2), (2, 2), (0, 2)), ((0, 0), (2, 0), (1, 2), (0, 2)), ((0, 0), (1, 0), (0, 2), (0, 2)),
         ((0, 0), (2, 0), (2, 2), (0, 1)), ((0, 0), (2, 0), (2, 1), (0, 0)), ((1, 0), (2, 0), (2, 2), (0, 2)), ((2, 0), (2, 0), (2, 2), (1, 2)),
         ((0, 1), (2, 0), (2, 2), (0, 2)), ((0, 2), (2, 1), (2, 2), (0, 2)), ((0, 0), (2, 0), (2, 2), (1, 2)), ((1, 0), (2, 0), (2, 2), (2, 2)),
         ((0, 0), (2, 0), (2, 1), (0, 2)), ((0, 0), (2, 0), (2, 0), (0, 1)), ((0, 0), (1, 0), (2, 2), (0, 2)), ((0, 0), (0, 0), (1, 2), (0, 2)),
         ((0, 0), (2, 2), (2, 2), (0, 2)), ((0, 0), (2, 0), (2, 0), (0, 2)), ((0, 0), (2, 0), (2, 2), (0, 0)), ((0, 2), (2, 0), (2, 2), (0, 2))]


def shared(tiles):
    """two existing edges of these tiles are one object"""
    seen = set()
    for t in tiles:
        for s in has_edges(int(t.shape)) if 0 <= int(t.shape) <= 20 else ():
            if id(t.edge_data[s]) in seen:
                return True
            seen.add(id(t.edge_data[s]))
    return False


def rich_edge(rng):
    return [rng.randrange(2) for _ in range(4)] + [rng.randint(-90, 90) for _ in range(2)] + [rng.randrange(8), rng.randrange(2), rng.randrange(2), rng.randrange(2), rng.randint(-90, 90), rng.randint(-90, 90)]


def rand_tile(rng, sh, blank_missing=False):
    t = L.rand_tile(rng, 19, 0, 0)
    t["sh"] = sh
    t["e"] = [rich_edge(rng) if rng.random() < 0.8 else L.rand_edge(rng) for _ in range(4)]
    if blank_missing:
        t["e"] = [e if s in has_edges(sh) else [0] * 12 for s, e in enumerate(t["e"])]
    return {k: t[k] for k in ("sh", "fl", "ss", "sp", "st", "e")}


def do_seq(c):
    tile = L.build_tile(c["t"])
    ts = []

    def go():
        for g, k, tx, ty, flat in c["ms"]:
            tile.transform(matrix(g, k, tx, ty, flat))
            ts.append(L.proj_tile(tile))

    res = observe(go)
    return [{"op": "seq", "out": L.oc(res), "t0": L.proj_tile(L.build_tile(c["t"])), "gs": [m[0] for m in c["ms"]], "ts": ts, "alias": shared([tile])}]


def do_up(c):
    tile = L.build_tile(c["t"])
    t0 = L.proj_tile(tile)
    res = observe(lambda: list(tile.upscale(c["f"])))
    out = []
    alias = False
    if res[0] == "ok":
        for r in res[1]:
            dx, dy, t = r
            out.append({"dx": L.nat(dx), "dy": L.nat(dy), "t": L.proj_tile(t)})
        alias = shared([tile] + [r[2] for r in res[1]])
    return [{"op": "up", "out": L.oc(res), "f": c["f"], "t": t0, "t2": L.proj_tile(tile), "res": out, "alias": alias}]
