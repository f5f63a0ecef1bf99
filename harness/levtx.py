"""Level transforms, upscales and the transform command (C16, C17, C26)."""
import random

from . import levels as L
from . import vals
from .core import observe
from .tiles import SYM, has_edges, matrix

EIGHTH = 1 << 28
BAD = -(2**31)


# ------------------------------------------------------------- projection
def unit(i, f):
    return 8 * i + f // 16 if f >= 0 and f % 16 == 0 and abs(i) < 2**27 else BAD


def kv(m):
    return [{"k": vals.unkey(e["k"]) if e["k"] != [-1] else "?", "v": e["v"]} for e in m["kv"]]


def view(level):
    """the level as LevelTx.tla sees it"""
    c = L.content(level)
    ents = [{"id": e["id"], "nm": vals.unkey(e["ty"]) if min(e["ty"], default=0) >= 0 else "?", "px": unit(e["xi"], e["xf"]), "py": unit(e["yi"], e["yf"]),
             "rot": e["rot"], "l": e["l"], "fx": e["fx"], "fy": e["fy"], "vis": e["vis"], "vars": kv(e["vars"])} for e in c["ents"]]
    return {"vars": kv(c["vars"]), "sshot": c["sshot"], "tiles": c["tiles"], "btiles": c["btiles"], "props": c["props"], "bprops": c["bprops"], "ents": ents}


# ------------------------------------------------------------- random levels
HITTABLE = ["enemy_bear", "enemy_door", "enemy_key", "enemy_tutorial_square", "hittable_apple", "dust_man", "trash_king", "enemy_wolf"]


def flt(rng, lim=3000):
    u = rng.randint(-8 * lim, 8 * lim)
    return {"t": 4, "i": u // 8, "f": (u % 8) * EIGHTH}


def vec(rng, lim=3000):
    a, b = flt(rng, lim), flt(rng, lim)
    return {"t": 10, "xi": a["i"], "xf": a["f"], "yi": b["i"], "yf": b["f"]}


def owned(rng, name):
    """variables of this type that a transform is meant to touch"""
    out = []

    def put(k, v):
        if rng.random() < 0.85:
            out.append({"k": vals.key(k), "v": v})

    vecs = {"t": 15, "et": 10, "a": [vec(rng) for _ in range(rng.choice([0, 1, 2, 4]))]}
    if name in ("check_point", "level_end_prox"):
        put("trigger_area", vecs)
    elif name == "AI_controller":
        put("nodes", vecs)
    elif name == "kill_box":
        put("width", {"t": 2, "n": rng.randint(0, 5000)})
        put("height", {"t": 2, "n": rng.randint(0, 5000)})
    elif name == "camera_node":
        put("zoom_h", {"t": 2, "n": rng.randint(0, 5000)})
        put("width", {"t": 2, "n": rng.randint(0, 5000)})
    elif name == "enemy_key":
        put("lastKnowX", flt(rng))
        put("lastKnowY", flt(rng))
    if name.startswith(("enemy_", "dust_")) or name in HITTABLE:
        put("dm_scale", {"t": 4, "i": rng.randint(0, 9), "f": rng.randrange(8) * EIGHTH})
    return out


# variables the library knows but a transform has nothing to do with: (key, type, element type)
KNOWN = {
    "AI_controller": [("puppet_id", 3, 0), ("nodes_wait_time", 15, 2)],
    "camera_node": [("node_type", 2, 0), ("c_node_ids", 15, 3), ("test_widths", 15, 2), ("control_widths", 15, 10)],
    "level_end": [("ent_list", 15, 3), ("finished", 1, 0)],
    "level_end_prox": [("finished", 1, 0)],
    "check_point": [("trigger_areas", 15, 10)],
    "enemy_key": [("door", 3, 0)],
    "enemy_trash_tire": [("max_fall_speed", 4, 0)],
    "fog_trigger": [("width", 2, 0), ("fog_speed", 4, 0), ("fog_colour", 15, 3), ("fog_per", 15, 4), ("gradient", 15, 3), ("has_sub_layers", 1, 0)],
    "ambience_trigger": [("width", 2, 0), ("sound_ambience_names", 15, 5), ("sound_ambience_vol", 15, 4)],
    "music_trigger": [("width", 2, 0), ("sound_music_names", 15, 5)],
    "special_trigger": [("width", 2, 0)],
    "text_trigger": [("hide", 1, 0), ("text_string", 5, 0)],
    "entity_emitter": [("e_area_width", 2, 0), ("e_area_height", 2, 0), ("width", 2, 0), ("height", 2, 0), ("e_rotation", 2, 0), ("r_rotation", 1, 0), ("emitter_id", 3, 0)],
    "level_door": [("width", 2, 0), ("file_name", 5, 0), ("door_set", 2, 0)],
    "giga_gate": [("key_needed", 2, 0)],
    "score_book": [("book_type", 5, 0)],
    "custom_score_book": [("level_list_id", 2, 0)],
    "z_string_list": [("list", 15, 5)],
}


def bystanders(rng, name):
    out = []
    for k, t, et in KNOWN.get(name, []):
        if rng.random() < 0.5:
            v = {"t": 15, "et": et, "a": [vals.rand_leaf(rng, et) for _ in range(rng.choice([0, 1, 3]))]} if t == 15 else vals.rand_leaf(rng, t)
            out.append({"k": vals.key(k), "v": v})
    return out


SPECIAL = ["check_point", "level_end_prox", "AI_controller", "kill_box", "camera_node", "enemy_key"] + HITTABLE


def rand_level(rng, size=None, whole=False):
    """whole: props on whole pixels, no filth data without filth (as files keep it)"""
    size = rng.choice([1, 2, 4, 7]) if size is None else size
    c = L.rand_content(rng, 0)
    c["sshot"] = [rng.randrange(256) for _ in range(rng.choice([0, 3]))]
    skip = {vals.unkey(vals.key(f"p{i}_{a}")) for i in range(1, 5) for a in "xy"}
    c["vars"]["kv"] = [e for e in c["vars"]["kv"] if vals.unkey(e["k"]) not in skip]
    for i in range(1, 5):
        for a in "xy":
            if rng.random() < 0.5:
                c["vars"]["kv"].append({"k": vals.key(f"p{i}_{a}"), "v": {"t": 2, "n": rng.randint(-20000, 20000)}})

    def tiles(n):
        cells = {}
        bx, by = rng.choice([(0, 0), (-1, -1), (rng.randint(-3000, 3000), rng.randint(-3000, 3000))])
        for _ in range(n):
            cells[(rng.choice([19, 19, rng.randrange(21)]), bx + rng.randint(-3, 3), by + rng.randint(-3, 3))] = 1
        out = []
        for k in sorted(cells):
            t = L.rand_tile(rng, *k)
            t["e"] = [e if s in has_edges(t["sh"]) else [0] * 12 for s, e in enumerate(t["e"])]
            if whole:  # and angles in the documented range, so that they can be negated
                t["e"] = [e if e[6] else e[:6] + [0] * 6 for e in t["e"]]
                t["e"] = [[max(-89, min(89, v)) for v in e] for e in t["e"]]
            out.append(t)
        return out

    c["tiles"] = tiles(2 * size)
    c["btiles"] = tiles(rng.choice([0, size]))

    def props(n):
        ids = L.rand_ids(rng, n)
        out = []
        for i in sorted(ids):
            p = L.rand_prop(rng, i, lim=20000)
            p["px"], p["py"] = (8 * rng.randint(-9000, 9000) + (0 if whole else rng.randrange(8)) for _ in range(2))
            out.append(p)
        return out

    c["props"], c["bprops"] = props(rng.randint(0, size)), props(rng.choice([0, size]))
    ents = []
    for i in sorted(L.rand_ids(rng, rng.randint(0, size + 2))):
        e = L.rand_ent(rng, i)
        if rng.random() < 0.7:
            e["ty"] = vals.key(rng.choice(SPECIAL + sorted(KNOWN)))
        name = vals.unkey(e["ty"])
        e["xi"], e["yi"] = rng.randint(-9000, 9000), rng.randint(-9000, 9000)
        e["xf"], e["yf"] = 16 * rng.randrange(8), 16 * rng.randrange(8)
        own = owned(rng, name) + bystanders(rng, name)
        taken = {vals.unkey(k) for k in (vals.key(x) for x in ("trigger_area", "nodes", "width", "height", "zoom_h", "lastKnowX", "lastKnowY", "dm_scale"))}
        taken |= {k for rows in KNOWN.values() for k, _t, _et in rows}
        e["vars"]["kv"] = [x for x in e["vars"]["kv"] if vals.unkey(x["k"]) not in taken]
        for x in own:
            e["vars"]["kv"].insert(rng.randint(0, len(e["vars"]["kv"])), x)
        if rng.random() < 0.2 and name not in SPECIAL and not name.startswith(("enemy_", "dust_")) and name not in ("leaf_sprite", "slime_boss"):
            # the same names mean nothing to other types
            if name in L.classes():
                e["vars"]["kv"].append({"k": vals.key("nodes"), "v": {"t": 15, "et": 10, "a": [vec(rng)]}})
        ents.append(e)
    c["ents"] = ents
    return c


def shift(rng, whole=False):
    r = rng.random()
    if r < 0.25:
        return 0
    if r < 0.5:
        return 384 * rng.randint(-40, 40)
    if r < 0.65:
        return 192 * rng.randint(-9, 9)
    return 8 * rng.randint(-3000, 3000) if whole or r < 0.85 else rng.randint(-9000, 9000)


# ------------------------------------------------------------- driving
def num(u, rng):
    return u // 8 if u % 8 == 0 and rng.random() < 0.6 else u / 8


def apply(level, o, rng):
    k = o["op"]
    if k == "hflip":
        level.flip_horizontal()
    elif k == "vflip":
        level.flip_vertical()
    elif k == "rotate":
        level.rotate(*([] if o["n"] == 1 and rng.random() < 0.5 else [o["n"]]))
    elif k == "translate":
        level.translate(num(o["x"], rng), num(o["y"], rng))
    elif k == "transform":
        level.transform(matrix(o["g"], 1, num(o["x"], rng), num(o["y"], rng)))
    else:
        if o["g"] == SYM[0] and o["x"] == o["y"] == 0 and rng.random() < 0.7:
            level.upscale(o["f"])
        else:
            level.upscale(o["f"], mat=matrix(o["g"], 1, num(o["x"], rng), num(o["y"], rng)))


def reload(level):
    res = L.write_level(level)
    return L.read_level(res[1]) if res[0] == "ok" else res


def do_history(c):
    rng = random.Random(c["seed"])
    level = L.bare(L.build(c["lev"], rng), c["seed"] % 4 == 0)
    out = []
    if c.get("files"):
        res = reload(level)
        if res[0] != "ok":
            before = view(level)
            return [{"op": "reload", "out": L.oc(res), "before": before, "after": before}]
        level = res[1]
    before = view(level)
    for o in c["ops"]:
        if o["op"] == "reload":
            res = reload(level)
            level = res[1] if res[0] == "ok" else level
        else:
            res = observe(apply, level, o, rng)
        after = view(level) if res[0] == "ok" else before
        out.append({**o, "out": L.oc(res), "before": before, "after": after})
        if res[0] != "ok":
            break
        before = after
    return out


def rand_op(rng, whole=False):
    k = rng.choice(["hflip", "vflip", "rotate", "translate", "transform", "transform"])
    if k == "rotate":
        return {"op": k, "n": rng.choice([1, 1, 2, 3, -1, -2, -3, 0, 4, 5, 7, -9, 1002])}
    if k == "translate":
        return {"op": k, "x": shift(rng, whole), "y": shift(rng, whole)}
    if k == "transform":
        return {"op": k, "g": rng.choice(SYM), "x": shift(rng, whole), "y": shift(rng, whole)}
    return {"op": k}


def saved_history(rng, up=False):
    """transformations of a level that comes from a file and is saved and loaded in between"""
    ops = []
    for _ in range(rng.randint(1, 3)):
        ops.append(rand_op(rng, True))
        if rng.random() < 0.7:
            ops.append({"op": "reload"})
    if up:
        ops.insert(rng.randint(0, len(ops)), {"op": "upscale", "f": 2, "g": rng.choice(SYM), "x": shift(rng, True), "y": shift(rng, True)})
        ops.append({"op": "reload"})
    return {"op": "level", "files": True, "lev": rand_level(rng, whole=True), "seed": rng.getrandbits(30), "ops": ops}
