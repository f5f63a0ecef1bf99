"""Levels <-> abstract contents of LevelFile.tla, random contents, random
abstract files, and what the code does with them."""
import io
import math
import zlib

from . import vals
from .core import MachineryError, observe

KNOWN = None


def classes():
    """type name -> class, for every entity type the library knows"""
    global KNOWN
    if KNOWN is None:
        from dustmaker.entity import Entity

        KNOWN = {}

        def walk(c):
            for s in c.__subclasses__():
                if s.__module__.startswith("dustmaker"):
                    ident = getattr(s, "TYPE_IDENTIFIER", None)
                    if ident is not None and "TYPE_IDENTIFIER" in vars(s):
                        KNOWN[ident] = s
                    walk(s)

        walk(Entity)
    return KNOWN


FOES = ("verif_foe", "verif_calm", "verif_heir")


def define_foes():
    """enemy types of a user, with the filth EnemyData.tla gives them"""
    from dustmaker import entity as E

    known = classes()
    if FOES[0] not in known:
        known["verif_foe"] = type("VerifFoe", (E.Enemy,), {"TYPE_IDENTIFIER": "verif_foe", "FILTH": 7})
        known["verif_calm"] = type("VerifCalm", (E.Enemy,), {"TYPE_IDENTIFIER": "verif_calm", "FILTH": 0})
        known["verif_heir"] = type("VerifHeir", (E.EnemyBear,), {"TYPE_IDENTIFIER": "verif_heir"})


def make_entity(name, variables, rotation=0, layer=18, flip_x=False, flip_y=False, visible=True):
    from dustmaker.entity import Entity

    cls = classes().get(name)
    if cls is not None:
        return cls(variables, rotation, layer, flip_x, flip_y, visible)
    ent = Entity(variables, rotation, layer, flip_x, flip_y, visible)
    ent.etype = name
    return ent


# ------------------------------------------------------------- projection
def bit(v):
    return 1 if v is True else 0 if v is False else -1


def nat(v, lo=-(2**31), hi=2**31 - 1):
    if isinstance(v, bool) or not isinstance(v, int) or not lo <= v <= hi:
        return -(2**31)
    return int(v)


def proj_edge(e):
    def two(t, f):
        return [f(t[0]), f(t[1])] if isinstance(t, tuple) and len(t) == 2 else [-9, -9]

    return [bit(e.solid), bit(e.visible), *two(e.caps, bit), *two(e.angles, nat), nat(e.filth_sprite_set), bit(e.filth_spike),
            *two(e.filth_caps, bit), *two(e.filth_angles, nat)]


def proj_tile(t):
    return {"sh": nat(t.shape), "fl": nat(t.tile_flags), "ss": nat(t.sprite_set), "sp": nat(t.sprite_palette), "st": nat(t.sprite_tile),
            "e": [proj_edge(e) for e in t.edge_data]}


def grid(x, den):
    """x as (floor, fraction in 1/den) or (floor, -1) when off the grid"""
    if isinstance(x, bool) or not isinstance(x, (int, float)) or not math.isfinite(x) or abs(x) >= 2**31:
        return (0, -7)
    i = math.floor(x)
    f = (x - i) * den
    return (i, int(f)) if f == int(f) else (i, -1)


def scale_step(s):
    if not isinstance(s, float) or s <= 0:
        return -1
    lg = round(math.log(s) / math.log(50.0) * 24.0) + 32
    return lg if abs(s - step_scale(lg)) <= 1e-9 * s else -1


def step_scale(lg):
    return pow(50.0, (lg - 32.0) / 24.0)


def proj_prop(i, v):
    layer, x, y, p = v
    gx, gy = grid(x, 8), grid(y, 8)
    ok = gx[1] >= 0 and gy[1] >= 0 and abs(gx[0]) < 2**27 + 2 and abs(gy[0]) < 2**27 + 2
    return {"id": nat(i), "l": nat(layer), "sub": nat(p.layer_sub), "px": 8 * gx[0] + gx[1] if ok else -(2**31), "py": 8 * gy[0] + gy[1] if ok else -(2**31),
            "lg": scale_step(p.scale), "rot": nat(p.rotation), "fx": bit(p.flip_x), "fy": bit(p.flip_y), "set": nat(p.prop_set),
            "grp": nat(p.prop_group), "idx": nat(p.prop_index), "pal": nat(p.palette)}


def proj_ent(i, v):
    x, y, e = v
    gx, gy = grid(x, 128), grid(y, 128)
    want = classes().get(e.etype)
    ty = vals.key(e.etype)
    if want is not None and type(e) is not want:
        ty = [-2]
    return {"id": nat(i), "ty": ty, "xi": gx[0], "xf": gx[1], "yi": gy[0], "yf": gy[1], "rot": nat(e.rotation), "l": nat(e.layer),
            "fx": bit(e.flip_x), "fy": bit(e.flip_y), "vis": bit(e.visible), "vars": vals.projmap(e.variables)}


def proj_tiles(tiles):
    return sorted(({"l": nat(k[0]), "x": nat(k[1]), "y": nat(k[2]), **proj_tile(t)} for k, t in tiles.items()), key=lambda t: (t["l"], t["x"], t["y"]))


def content(level):
    """Abstract content of a Level (total on anything the library returns)."""
    bd = level.backdrop
    return {
        "vars": vals.projmap(level.variables),
        "sshot": list(level.sshot),
        "tiles": proj_tiles(level.tiles),
        "props": sorted((proj_prop(i, v) for i, v in level.props.items()), key=lambda p: p["id"]),
        "ents": sorted((proj_ent(i, v) for i, v in level.entities.items()), key=lambda p: p["id"]),
        "btiles": proj_tiles(bd.tiles) if bd is not None else [],
        "bprops": sorted((proj_prop(i, v) for i, v in bd.props.items()), key=lambda p: p["id"]) if bd is not None else [],
    }


EMPTY = {"vars": {"t": 14, "kv": []}, "sshot": [], "tiles": [], "props": [], "ents": [], "btiles": [], "bprops": []}


# ------------------------------------------------------------- building
def build_tile(t):
    from dustmaker.tile import Tile, TileEdgeData, TileShape, TileSpriteSet

    tile = Tile(TileShape(t["sh"]), tile_flags=t["fl"], sprite_set=TileSpriteSet(t["ss"]), sprite_tile=t["st"], sprite_palette=t["sp"])
    for i, e in enumerate(t["e"]):
        tile.edge_data[i] = TileEdgeData(
            solid=bool(e[0]), visible=bool(e[1]), caps=(bool(e[2]), bool(e[3])), angles=(e[4], e[5]),
            filth_sprite_set=TileSpriteSet(e[6]), filth_spike=bool(e[7]), filth_caps=(bool(e[8]), bool(e[9])), filth_angles=(e[10], e[11]))
    return tile


def build_prop(p):
    from dustmaker.prop import Prop

    return Prop(p["sub"], p["rot"], bool(p["fx"]), bool(p["fy"]), step_scale(p["lg"]), p["set"], p["grp"], p["idx"], p["pal"])


def canon(c):
    """content with its lists in the order `content` uses"""
    c = dict(c)
    for k in ("tiles", "btiles"):
        c[k] = sorted(c[k], key=lambda t: (t["l"], t["x"], t["y"]))
    for k in ("props", "bprops", "ents"):
        c[k] = sorted(c[k], key=lambda p: p["id"])
    return c


def build(c, rng=None):
    """A Level with content c, objects inserted in a shuffled order."""
    from dustmaker.level import Level

    level = Level()
    level.variables = vals.build(c["vars"]).value
    level.sshot = bytes(c["sshot"])

    def order(s):
        s = list(s)
        if rng:
            rng.shuffle(s)
        return s

    for t in order(c["tiles"]):
        level.tiles[(t["l"], t["x"], t["y"])] = build_tile(t)
    for p in order(c["props"]):
        level.add_prop(p["l"], p["px"] / 8, p["py"] / 8, build_prop(p), id_num=p["id"])
    for e in order(c["ents"]):
        level.add_entity(e["xi"] + e["xf"] / 128, e["yi"] + e["yf"] / 128,
                         make_entity(vals.unkey(e["ty"]), vals.build(e["vars"]).value, e["rot"], e["l"], bool(e["fx"]), bool(e["fy"]), bool(e["vis"])),
                         id_num=e["id"])
    for t in order(c["btiles"]):
        level.backdrop.tiles[(t["l"], t["x"], t["y"])] = build_tile(t)
    for p in order(c["bprops"]):
        level.backdrop.add_prop(p["l"], p["px"] / 8, p["py"] / 8, build_prop(p), id_num=p["id"])
    return level


def bare(level, yes):
    """a level with nothing in its backdrop may as well have none"""
    if yes and not level.backdrop.tiles and not level.backdrop.props:
        level.backdrop = None
    return level


# ------------------------------------------------------------- random contents
def rand_edge(rng):
    r = rng.random()
    if r < 0.4:
        return [0] * 12
    a = [-128, 127, 0, 45, -45, 90]
    e = [rng.randrange(2) for _ in range(4)] + [rng.choice(a + [rng.randint(-128, 127)]) for _ in range(2)]
    if r < 0.7:
        return e + [0] * 6
    return e + [rng.randrange(8), rng.randrange(2), rng.randrange(2), rng.randrange(2), rng.choice(a), rng.choice(a)]


DUSTBLOCK = {1: 21, 2: 13, 3: 6, 4: 9, 5: 2}


def rand_tile(rng, layer, x, y):
    ss = rng.randrange(8)
    st = rng.randrange(256)
    if rng.random() < 0.25 and ss in DUSTBLOCK:
        st = DUSTBLOCK[ss]
    elif rng.random() < 0.1:
        st = rng.choice(list(DUSTBLOCK.values()))
    return {"l": layer, "x": x, "y": y, "sh": rng.randrange(21), "fl": rng.choice([4, 4, rng.randrange(8)]),
            "ss": ss, "sp": rng.randrange(16), "st": st, "e": [rand_edge(rng) for _ in range(4)]}


def rand_coord(rng, lim):
    c = rng.random()
    if c < 0.45:
        return rng.randint(-20, 20)
    if c < 0.7:
        return rng.choice([-256, 256, -16, 16, 240, 255, -257, -255, -1, 0, 15, 512, -272]) + rng.randint(-1, 1)
    if c < 0.85:
        return rng.randint(-5000, 5000)
    return rng.choice([-lim, lim - 1, lim - 16, -lim + 15, rng.randint(-lim, lim - 1)])


def rand_ids(rng, n):
    ids = set()
    while len(ids) < n:
        ids.add(rng.choice([rng.randint(0, 40), rng.randint(100, 130), rng.randint(0, 2**31 - 2), 2**31 - 2, 0]))
    return rng.sample(sorted(ids), n)


def rand_prop(rng, i, lim=2**27 - 1, grid8=False):
    def pos():
        r = rng.random()
        v = rng.randint(-500, 500) if r < 0.5 else rng.choice([0, -1, 48, -48, 12288, -12288, 12287, 768, lim, -lim, rng.randint(-lim, lim)])
        return 8 * max(-lim, min(lim, v)) + (rng.randrange(8) if grid8 else 0)

    return {"id": i, "l": rng.randrange(21), "sub": rng.randrange(25), "px": pos(), "py": pos(), "lg": rng.choice([32, 0, 55, rng.randrange(56)]),
            "rot": rng.choice([0, 0x4000, 0xFFFF, rng.randrange(65536)]), "fx": rng.randrange(2), "fy": rng.randrange(2),
            "set": rng.randrange(256), "grp": rng.choice([0, 4095, rng.randrange(4096)]), "idx": rng.choice([0, 4095, rng.randrange(4096)]), "pal": rng.randrange(256)}


EXTRA_NAMES = ["entity", "z_custom", "z_", "unknown_type", "a", "{_9Z", "x" * 63, "z_" + "q" * 61, "entity_x", "zz_top"]


def rand_fixpos(rng, lim=402653183):
    i = rng.randint(-500, 500) if rng.random() < 0.6 else rng.choice([0, -1, -48, 48, 12288, -12289, lim, -lim, rng.randint(-lim, lim)])
    # the wire format keeps |floor| in 31 bits
    return i, rng.choice([0, 0, 1, 64, 127, rng.randrange(128)])


def rand_ent(rng, i, names=None):
    xi, xf = rand_fixpos(rng)
    yi, yf = rand_fixpos(rng)
    name = rng.choice(EXTRA_NAMES) if rng.random() < 0.35 else rng.choice(sorted(classes()))
    return {"id": i, "ty": vals.key(name), "xi": xi, "xf": xf, "yi": yi, "yf": yf, "rot": rng.choice([0, 0x8000, rng.randrange(65536)]),
            "l": rng.choice([18, rng.randrange(256)]), "fx": rng.randrange(2), "fy": rng.randrange(2), "vis": rng.randrange(2),
            "vars": vals.rand_val(rng, rng.choice([0, 1, 2]), 14)}


def rand_tiles(rng, n, lim):
    cells = {}
    if n and lim > 200 and rng.random() < 0.4:  # a cluster in few segments, several layers
        bx, by = rand_coord(rng, lim - 64), rand_coord(rng, lim - 64)
        for _ in range(n):
            cells[(rng.choice([19, 19, 19, 0, 20, rng.randrange(21)]), bx + rng.randrange(20), by + rng.randrange(20))] = 1
    else:
        for _ in range(n):
            cells[(rng.choice([19, 19, rng.randrange(21)]), rand_coord(rng, lim), rand_coord(rng, lim))] = 1
    return [rand_tile(rng, *k) for k in sorted(cells)]


#: variables the library or the game gives a meaning, with their type
KNOWN_VARS = {"icon_taken": 1, "level_name": 5, "dustmod_version": 5, "vector_character": 1, "p1_x": 2, "p1_y": 2, "p2_x": 2, "p4_y": 2, "cp_dialog": 5, "version": 3}


def rand_vars(rng, mod=None):
    v = vals.rand_val(rng, rng.choice([0, 1, 2, 3]), 14)
    names = [vals.key(n) for n in KNOWN_VARS]
    v["kv"] = [e for e in v["kv"] if e["k"] != vals.key("level_type") and e["k"] not in names]
    for n in rng.sample(sorted(KNOWN_VARS), rng.choice([0, 1, 2, 5])):
        x = vals.rand_leaf(rng, KNOWN_VARS[n])
        if n == "icon_taken":
            x = {"t": 1, "b": rng.random() < 0.3}
        v["kv"].insert(rng.randint(0, len(v["kv"])), {"k": vals.key(n), "v": x})
    if mod or (mod is None and rng.random() < 0.3):
        v["kv"].insert(rng.randint(0, len(v["kv"])), {"k": vals.key("level_type"), "v": {"t": 2, "n": 6 if mod else rng.choice([0, 1, 6])}})
    return v


def rand_content(rng, size=None):
    size = size if size is not None else rng.choice([0, 1, 2, 3, 6, 12])

    def some():
        return rng.randint(0, size) if rng.random() < 0.75 else 0

    np, nb, ne = some(), some() if rng.random() < 0.5 else 0, some()
    pids = rand_ids(rng, np)
    return {
        "vars": rand_vars(rng),
        "sshot": [rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 7, 30]))],
        "tiles": rand_tiles(rng, some() * 2, 8388608),
        "props": sorted((rand_prop(rng, i) for i in pids), key=lambda p: p["id"]),
        "ents": sorted((rand_ent(rng, i) for i in rand_ids(rng, ne)), key=lambda p: p["id"]),
        "btiles": rand_tiles(rng, some() if rng.random() < 0.5 else 0, 524287),
        "bprops": sorted((rand_prop(rng, i) for i in rand_ids(rng, nb)), key=lambda p: p["id"]),
    }


# ------------------------------------------------------------- random files
def rand_seg(rng, ver, mod, x, y, backdrop=False):
    def edges12():
        return [rng.randrange(256) for _ in range(10)]

    new = ver > 6 or mod
    layers = []
    for lay in rng.sample(range(21), rng.choice([0, 1, 2])) + ([19] if rng.random() < 0.4 else []):
        tiles = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            d = edges12() + [rng.randrange(8) + 16 * rng.randrange(16), rng.randrange(256)]
            tiles.append({"x": rng.randrange(16), "y": rng.randrange(16), "sh": rng.randrange(21), "fl": rng.randrange(8), "d": d})
        layers.append({"l": lay, "tiles": tiles})
    dust = []
    for _ in range(rng.choice([0, 0, 1, 3])):
        cand = [(t["x"], t["y"]) for ly in layers if ly["l"] == 19 for t in ly["tiles"]] + [(rng.randrange(16), rng.randrange(16))]
        cx, cy = rng.choice(cand)
        dust.append({"x": cx, "y": cy, "d": edges12() + [rng.randrange(256), 0]})
    props = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        if rng.random() < 0.2:
            props.append({"id": rng.choice([-1, -2, -(2**31)])})
            continue
        p = rand_prop(rng, rng.choice([0, 1, 2, 3, 100, 101, rng.randrange(2**31 - 1)]), lim=2**27 - 1 if new else 2**26, grid8=not new)
        lg = p.pop("lg")
        p["sc"] = [rng.randrange(16), rng.randrange(16)] if new else [0, 0]
        props.append(p)
    ents = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        if rng.random() < 0.15:
            ents.append({"id": rng.choice([-1, -5, -(2**31)])})
            continue
        e = rand_ent(rng, rng.choice([0, 1, 2, 3, 100, rng.randrange(2**31 - 1)]))
        ext = []
        nm = e.pop("ty")
        if ver > 7 and rng.random() < 0.5:
            nm, ext = vals.key("entity"), vals.key(rng.choice(["z_abc", "entity", "enemy_bear", "z_string_list", "q", ""]))
        elif ver > 7 and nm == vals.key("entity"):
            ext = vals.key("z_zz")
        e["nm"], e["ext"] = nm, ext
        e["fcx"], e["fcy"] = e.pop("fx"), e.pop("fy")
        ents.append(e)
    hdr = [rng.randrange(65536) for _ in range(4)]
    if ver <= 5:
        hdr[2:] = [0, 0]
    if ver <= 4:
        hdr = [0] * 4
    return {"ver": ver, "x": x, "y": y, "hdr": hdr, "layers": layers, "dust": dust, "props": props, "ents": [] if backdrop else ents,
            "slack": rng.choice([0, 0, 0, 1, 5])}


REGION_AT = [0, 0, -1, -1, 1, 2, 7, 127, 128, 255, 256, 300, -128, -129, -300, 16383, 16384, -16384, -16385, 32767, -32768, -20000]


def big_file(rng, what):
    """counts and sizes beyond one byte, sizes of blocks beyond two"""
    f = rand_file(rng)
    f["ver"] = 44
    if what == "sshot":
        f["sshot"] = list(rng.randbytes(66000))
    elif what == "regions":
        f["regions"] = [{"x": i, "y": 3 - i, "segs": [rand_seg(rng, 8, False, 1, 2)] if i % 40 == 0 else [], "bd": []} for i in range(-140, 140)]
        f["vars"] = {"t": 14, "kv": []}
    elif what == "segs":
        segs = [rand_seg(rng, 8, False, x, y) for x in range(16) for y in range(16)]
        for k, s in enumerate(segs):
            if k % 10:
                s["layers"], s["dust"], s["props"], s["ents"] = s["layers"][:1], [], [], []
        f["regions"] = [{"x": 1, "y": -2, "segs": segs, "bd": [rand_seg(rng, 8, False, 0, 0, True)]}]
        f["vars"] = {"t": 14, "kv": []}
    else:
        seg = rand_seg(rng, 8, False, 3, 4)
        while not (seg["layers"] and seg["layers"][0]["l"] != 19):
            seg = rand_seg(rng, 8, False, 3, 4)
        pool = [rand_seg(rng, 8, False, 3, 4) for _ in range(400)]
        ps, es = [p for q in pool for p in q["props"]], [e for q in pool for e in q["ents"]]
        for k, o in enumerate(ps):
            if o["id"] >= 0:
                o["id"] = 5000 + k
        for k, o in enumerate(es):
            if o["id"] >= 0:
                o["id"] = 5000 + k
                if k % 9:
                    o["vars"] = {"t": 14, "kv": []}
        tile = seg["layers"][0]["tiles"][0]
        seg["layers"][0]["tiles"] = [dict(tile, x=x, y=y, fl=(x + y) % 8) for x in range(16) for y in range(16)]
        if what == "tiles":
            seg["layers"] += [{"l": 19, "tiles": [dict(tile, x=x, y=y, fl=(x + y) % 8) for x in range(16) for y in range(16)]}]
            seg["dust"] = [{"x": x, "y": y, "d": [rng.randrange(256) for _ in range(11)] + [0]} for x in range(16) for y in range(16)]
        elif what == "props":
            seg["props"] = ps[:300]
        else:
            seg["ents"] = es[:300]
            for k, o in enumerate(seg["ents"] if what == "names" else []):
                if "nm" in o:
                    o["nm"], o["ext"] = vals.key("entity"), vals.key(("z_%03d" % k).ljust(63, "abcdefgh_X"[k % 10]))
        f["regions"] = [{"x": 0, "y": 0, "segs": [seg], "bd": []}]
        f["vars"] = {"t": 14, "kv": []}
    return f


BIG_FILES = ["sshot", "regions", "segs", "tiles", "props", "ents", "names"]


def rand_file(rng):
    ver = rng.choice([43, 44, 44])
    mod = rng.random() < 0.3
    v = rand_vars(rng, mod=mod)
    regions = []
    where = {(rng.choice(REGION_AT), rng.choice(REGION_AT)) for _ in range(rng.choice([0, 1, 1, 2, 3]))}
    for rx, ry in sorted(where):
        # a segment and a region occur once; ids may repeat anywhere
        at = {(rng.choice([0, 15, rng.randrange(16)]), rng.choice([0, 15, rng.randrange(16)])) for _ in range(rng.choice([0, 1, 1, 2, 3]))}
        segs = [rand_seg(rng, rng.randint(4, 8), mod, sx, sy) for sx, sy in sorted(at)]
        bd = [rand_seg(rng, rng.randint(4, 8), False, 0, 0, True)] if rng.random() < 0.35 else []
        regions.append({"x": rx, "y": ry, "segs": segs, "bd": bd})
    return {"ver": ver, "sshot": [rng.randrange(256) for _ in range(rng.choice([0, 3]))] if ver > 43 else [],
            "uid": rng.choice([0, 100, 2**31 - 1, rng.randrange(2**31 - 1)]), "vars": v, "regions": regions}


def encode_files(ctx, files, shards=8):
    """abstract files -> bytes, by the specification's encoder"""
    out = [None] * len(files)
    hs = []
    for s in range(shards):
        part = [{"id": i, "f": files[i]} for i in range(s, len(files), shards)]
        if part:
            hs.append(ctx._start_judge("LevelEncode", "LevelEncode.cfg", [part], None, "3g"))
    for h, _gl, _path in hs:
        r = ctx._wait(h, 800)
        if r.rc != 0:
            raise MachineryError("LevelEncode: " + r.out[-3000:])
        for j in r.json:
            out[j["id"]] = j["bytes"]
    if any(b is None for b in out):
        raise MachineryError("LevelEncode: missing output")
    return out


# ------------------------------------------------------------- running the code
def oc(res):
    if res[0] == "ok":
        return "ok"
    if res[0] == "exc":
        for n in ("LevelParseException", "LevelException", "ValueError"):
            if n in res[1]:
                return n
        return res[1][0]
    return res[0]


def blobs(data):
    """Every zlib stream in data, by offset: the judge asks for the ones the
    container format points at."""
    data = bytes(data)
    out = []
    pos = 0
    while True:
        pos = data.find(b"\x78", pos)
        if pos < 0:
            return out
        d = zlib.decompressobj()
        try:
            raw = d.decompress(data[pos:])
            if d.eof and len(raw) < 300000:
                n = len(data) - pos - len(d.unused_data)
                out.append({"o": pos, "n": n, "raw": list(raw)})
        except zlib.error:
            pass
        pos += 1


def write_level(level):
    from dustmaker.dfwriter import DFWriter
    from dustmaker.dfwriter import write_level as wl

    buf = io.BytesIO()
    how = (len(level.tiles) + len(level.props)) % 4  # the documented ways are equivalent

    def go():
        if how == 1:
            return wl(level)
        with DFWriter(buf, noclose=True) as w:
            if how == 2:
                w.write_level_ex(level, [], b"")
            else:
                w.write_level(level)
        return buf.getvalue()

    return observe(go)


def read_level(data, how=0):
    """how: 0 convenience function, 1 reader, 2 region by region, 3 each region at its offset"""
    from dustmaker.dfreader import DFReader
    from dustmaker.dfreader import read_level as rl

    if not how:
        return observe(rl, bytes(data))

    def go():
        with DFReader(io.BytesIO(bytes(data))) as rd:
            if how == 1:
                return rd.read_level()
            level, offs = rd.read_level_ex()
            base = rd.bit_tell()
            for off in offs[:-1]:
                if how == 3:
                    rd.bit_seek(base + 8 * off)
                rd.read_region(level)
            return level

    return observe(go)


def read_head(data):
    """variables, thumbnail and number of objects after a metadata-only read"""
    from dustmaker.dfreader import DFReader

    def go():
        level = DFReader(io.BytesIO(bytes(data))).read_level(metadata_only=True)
        c = content(level)
        return {"vars": c["vars"], "sshot": c["sshot"], "n": sum(len(c[k]) for k in ("tiles", "btiles", "props", "bprops", "ents"))}

    return observe(go)


def do_rt(c):
    import random

    if c.get("foes"):
        define_foes()
    level = bare(build(c["c"], random.Random(c.get("shuffle", 0))), c.get("shuffle", 0) % 3 == 0)
    e = {"op": "rt", "c": c["c"], "c2": EMPTY, "out": "", "rout": "none", "r": EMPTY, "bytes": [], "blobs": [], "wf": c.get("wf", False)}
    res = write_level(level)
    e["out"] = oc(res)
    e["c2"] = content(level)
    if res[0] == "ok":
        r = read_level(res[1])
        e["rout"] = oc(r)
        if r[0] == "ok":
            e["r"] = content(r[1])
        if e["wf"]:
            e["bytes"], e["blobs"] = list(res[1]), blobs(res[1])
    return [e]


TILE_ATTRS = ("shape", "tile_flags", "sprite_set", "sprite_tile", "sprite_palette")
EDGE_ATTRS = ("solid", "visible", "caps", "angles", "filth_sprite_set", "filth_spike", "filth_caps", "filth_angles")
PROP_ATTRS = ("layer_sub", "rotation", "flip_x", "flip_y", "scale", "prop_set", "prop_group", "prop_index", "palette")
ENT_ATTRS = ("rotation", "layer", "flip_x", "flip_y", "visible")


def morph_tile(old, t, rng):
    for a in TILE_ATTRS:
        setattr(old, a, getattr(t, a))
    for i in range(4):
        if rng.random() < 0.2:
            old.edge_data[i] = t.edge_data[i]
        else:
            for a in EDGE_ATTRS:
                setattr(old.edge_data[i], a, getattr(t.edge_data[i], a))


def morph(level, c, rng):
    """give an existing level the content c, changing its objects in place where there are any"""
    want = build(c, rng)
    for lev, w in ((level, want), (level.backdrop, want.backdrop)):
        for k in list(lev.tiles):
            if k not in w.tiles:
                del lev.tiles[k]
        for k, t in w.tiles.items():
            if k not in lev.tiles or rng.random() < 0.2:
                lev.tiles[k] = t
                continue
            morph_tile(lev.tiles[k], t, rng)
        for k in list(lev.props):
            if k not in w.props:
                del lev.props[k]
        for k, (lay, x, y, p) in w.props.items():
            if k not in lev.props:
                lev.add_prop(lay, x, y, p, id_num=k)
                continue
            old = lev.props[k][3]
            for a in PROP_ATTRS:
                setattr(old, a, getattr(p, a))
            lev.props[k] = (lay, x, y, old)
    for k in list(level.entities):
        if k not in want.entities:
            del level.entities[k]
    for k, (x, y, e) in want.entities.items():
        old = level.entities[k][2] if k in level.entities else None
        if old is None:
            level.add_entity(x, y, e, id_num=k)
        elif type(old) is type(e) and old.etype == e.etype:
            for a in ENT_ATTRS:
                setattr(old, a, getattr(e, a))
            old.variables.clear()
            old.variables.update(e.variables)
            level.entities[k] = (x, y, old)
        else:
            level.entities[k] = (x, y, e)
    if rng.random() < 0.5:
        level.variables.clear()
        level.variables.update(want.variables)
    else:
        level.variables = want.variables
    level.sshot = want.sshot


def part_of(rng, old, new, keep):
    """old with all, one or some of its fields taken from new"""
    names = [k for k in new if k not in keep]
    r = rng.random()
    some = names if r < 0.3 else [rng.choice(names)] if r < 0.7 else [k for k in names if rng.random() < 0.5]
    if "e" in some and rng.random() < 0.4:
        # one side of the tile, or one field of it
        e = [list(x) for x in old["e"]]
        side, f = rng.randrange(4), rng.randrange(12)
        e[side] = new["e"][side] if rng.random() < 0.5 else e[side][:f] + [new["e"][side][f]] + e[side][f + 1 :]
        return {**old, "e": e}
    return {**old, **{k: new[k] for k in some}}


def perturb(rng, c):
    """another content, with many of the same places and ids"""
    out = rand_content(rng, rng.choice([0, 1, 2]))
    for k in ("tiles", "btiles"):
        cells = {(t["l"], t["x"], t["y"]): t for t in out[k]}
        for t in c[k]:
            r = rng.random()
            if r < 0.75:
                cells[(t["l"], t["x"], t["y"])] = t if r < 0.2 else part_of(rng, t, rand_tile(rng, t["l"], t["x"], t["y"]), ("l", "x", "y"))
        out[k] = list(cells.values())
    for k in ("props", "bprops"):
        objs = {p["id"]: p for p in out[k]}
        for p in c[k]:
            r = rng.random()
            if r < 0.75:
                objs[p["id"]] = p if r < 0.2 else part_of(rng, p, rand_prop(rng, p["id"]), ("id",))
        out[k] = list(objs.values())
    objs = {e["id"]: e for e in out["ents"]}
    for e in c["ents"]:
        r = rng.random()
        if r < 0.75:
            objs[e["id"]] = e if r < 0.2 else part_of(rng, e, rand_ent(rng, e["id"]), ("id",))
    out["ents"] = list(objs.values())
    return canon(out)


def do_hist(c):
    """write, change in place, write again, ... (sometimes going on with what was read)"""
    import random

    rng = random.Random(c["seed"])
    level = build(c["cs"][0], rng)
    evs = []
    for k, cc in enumerate(c["cs"]):
        if k:
            morph(level, cc, rng)
        e = {"op": "rt", "c": cc, "c2": EMPTY, "out": "", "rout": "none", "r": EMPTY, "bytes": [], "blobs": [], "wf": c.get("wf", False)}
        res = write_level(level)
        e["out"], e["c2"] = oc(res), content(level)
        evs.append(e)
        if res[0] != "ok":
            break
        r = read_level(res[1])
        e["rout"] = oc(r)
        if r[0] != "ok":
            break
        e["r"] = content(r[1])
        if e["wf"]:
            e["bytes"], e["blobs"] = list(res[1]), blobs(res[1])
        if rng.random() < 0.4:
            level = r[1]
    return evs


def do_leg(c):
    r = read_level(c["bytes"], c.get("how", 0))
    h = read_head(c["bytes"])
    return [{"op": "leg", "bytes": list(c["bytes"]), "blobs": blobs(c["bytes"]) if c.get("z") else [], "rout": oc(r), "r": content(r[1]) if r[0] == "ok" else EMPTY,
             "hout": oc(h), "h": h[1] if h[0] == "ok" else {}}]


def do_ref(c):
    r = read_level(c["bytes"])
    return [{"op": "ref", "bytes": list(c["bytes"]), "rout": oc(r)}]


def do_apx(c):
    """objects off the grid: c["pos"] = list of (kind, x, y)"""
    import random

    from dustmaker.level import Level

    level = Level()
    rng = random.Random(c["seed"])
    for k, (kind, x, y) in enumerate(c["pos"]):
        if kind == "e":
            level.add_entity(x, y, make_entity("enemy_bear", {}), id_num=k + 1)
        else:
            p = rand_prop(rng, k + 1)
            (level if kind == "p" else level.backdrop).add_prop(p["l"], x, y, build_prop(p), id_num=k + 1)
    res = write_level(level)
    r = read_level(res[1]) if res[0] == "ok" else res
    out = []
    if r[0] == "ok":
        for k, (kind, x, y) in enumerate(c["pos"]):
            lv = r[1].backdrop if kind == "b" else r[1]
            den = 128 if kind == "e" else 1
            try:
                got = lv.entities[k + 1][:2] if kind == "e" else lv.props[k + 1][1:3]
            except KeyError:
                got = (None, None)
            for want, g in zip((x, y), got):
                lo = math.floor(want * den)
                hi = lo if lo == want * den else lo + 1
                out.append({"lo": list(divmod(lo, den)), "hi": list(divmod(hi, den)), "r": list(grid(g, den))})
    return [{"op": "apx", "rout": oc(r), "pos": out}]
