"""C24: equality and hashing of tiles and variables agree with their content."""
import copy
import json
import random

from . import levels as lv
from . import vals
from . import varcases
from .arrays import sort_kv
from .core import observe


def tri(fn):
    got = observe(fn)
    return ("T" if got[1] else "F") if got[0] == "ok" and got[1] in (True, False) else "err"


def others():
    from dustmaker.tile import TileShape
    from dustmaker.variable import VariableType

    return [None, 0, 1, True, "x", b"", 0.0, (), (1, 2), frozenset(), object(), int, VariableType.INT, TileShape.FULL, "Variable"]


def make(kind, v):
    return vals.build(v) if kind != "tile" else lv.build_tile(v)


def minus(o):
    """the same variable with its zeros negative"""
    from dustmaker import variable as V

    if isinstance(o, V.VariableFloat):
        return V.VariableFloat(-0.0) if o.value == 0 else o
    if isinstance(o, V.VariableVec2):
        return V.VariableVec2(tuple(-0.0 if x == 0 else x for x in o.value))
    if isinstance(o, V.VariableStruct):
        return V.VariableStruct({k: minus(x) for k, x in o.value.items()})
    if isinstance(o, V.VariableArray):
        return V.VariableArray(o.value[0], [minus(x) for x in o.value[1]])
    return o


def proj(kind, o):
    return vals.proj(o) if kind == "var" else lv.proj_tile(o)


def scribble(rng, kind, o):
    """change everything reachable in a copy"""
    from dustmaker import variable as V
    from dustmaker.tile import TileEdgeData, TileShape, TileSpriteSet

    if kind == "tile":
        for e in o.edge_data:
            e.solid = not e.solid
            e.visible = not e.visible
            e.caps = (not e.caps[0], not e.caps[1])
            e.angles = (1, 2)
            e.filth_sprite_set = TileSpriteSet.FOREST
            e.filth_spike = not e.filth_spike
            e.filth_angles = (3, 4)
            e.filth_caps = (not e.filth_caps[0], not e.filth_caps[1])
        o.edge_data[rng.randrange(4)] = TileEdgeData()
        o.shape = TileShape((o.shape + 1) % 21)
        o.tile_flags ^= 7
        o.set_sprite_tuple((TileSpriteSet.CITY, 77, 3))
        return
    if isinstance(o, V.VariableStruct):
        for x in list(o.value.values()):
            scribble(rng, kind, x)
        o.value["added"] = V.VariableInt(1)
        for k in list(o.value)[:1]:
            del o.value[k]
    elif isinstance(o, V.VariableArray):
        for x in list(o.value[1]):
            scribble(rng, kind, x)
        if len(o) > 1:
            o.reverse()
        if len(o):
            o.pop()
        else:
            et = o.element_type
            o.value[1].append(et(V.VariableInt) if et is V.VariableArray else et())
    elif isinstance(o, V.VariableBool):
        o.value = not o.value
    elif isinstance(o, (V.VariableInt, V.VariableUInt)):
        o.value = (o.value + 1) & 0x7FFFFFFF
    elif isinstance(o, V.VariableFloat):
        o.value += 1.0
    elif isinstance(o, V.VariableString):
        o.value += b"!"
    elif isinstance(o, V.VariableVec2):
        o.value = (o.value[1] + 1.0, o.value[0])


def compare(x, y):
    e = {}
    e["eq"], e["eqr"], e["ne"] = tri(lambda: x == y), tri(lambda: y == x), tri(lambda: x != y)
    e["refl"] = tri(lambda: x == x)  # pylint: disable=comparison-with-itself
    h = observe(lambda: (hash(x), hash(y)))
    e["hash"] = ("same" if h[1][0] == h[1][1] else "differ") if h[0] == "ok" else "err"
    e["member"] = tri(lambda: x in {y: 1})
    s = observe(lambda: len({x, y}))
    e["size"] = s[1] if s[0] == "ok" else -1
    return e


def dispatch(c):
    rng = random.Random(c["seed"])
    kind = c["kind"]
    if kind == "zero":
        x, y = make(kind, c["a"]), minus(make(kind, c["a"]))
        return [{"kind": kind, "a": c["a"], **compare(x, y)}]
    base = kind if kind != "other" else c["base"]
    x = make(base, c["a"])
    y = make(base, c["b"]) if kind != "other" else others()[c["i"]]
    if kind != "other" and rng.random() < 0.5:
        # the same object after it was compared and hashed with another content
        was = c["b"]
        if c["a"] == c["b"] or rng.random() < 0.5:
            was = mutate(rng, c["a"]) if base == "var" else rng.choice(tile_variants(rng, c["a"]))
        x = make(base, was)
        observe(lambda: (hash(x), x == y, x in {y}))
        if base == "var":
            x = varcases.morph(x, c["a"], rng)
        else:
            lv.morph_tile(x, lv.build_tile(c["a"]), rng)
    e = {"kind": kind, "a": c["a"], "b": c.get("b", {"t": 0})}
    e.update(compare(x, y))
    if kind != "other":
        cp = observe(copy.deepcopy, x)
        if cp[0] != "ok":
            e.update(seen=proj(base, x), copyeq="err", copyhash=False, copied={"t": 0}, after={"t": 0})
            return [e]
        cp = cp[1]
        e["seen"] = proj(base, x)
        e["copyeq"] = tri(lambda: cp == x and x == cp)
        e["copyhash"] = observe(lambda: hash(cp) == hash(x)) == ("ok", True)
        e["copied"] = proj(base, cp)
        observe(scribble, rng, base, cp)
        observe(scribble, rng, base, y)
        e["after"] = proj(base, x)
    return [e]


def mutate(rng, v):
    """a value that differs from v in one place, or an equal one"""
    v = copy.deepcopy(v)
    spots = []

    def walk(x, put):
        spots.append((x, put))
        if x["t"] == 14:
            for en in x["kv"]:
                walk(en["v"], lambda n, en=en: en.__setitem__("v", n))
        elif x["t"] == 15:
            for i, el in enumerate(x["a"]):
                walk(el, lambda n, i=i, x=x: x["a"].__setitem__(i, n))

    box = [v]
    walk(v, lambda n: box.__setitem__(0, n))
    x, put = rng.choice(spots)
    t = x["t"]
    if t == 14:
        r = rng.random()
        if r < 0.4:
            rng.shuffle(x["kv"])
        elif r < 0.6 and x["kv"]:
            x["kv"].pop(rng.randrange(len(x["kv"])))
        elif r < 0.8 and x["kv"]:
            en = rng.choice(x["kv"])
            k = rng.choice([en["k"] + [97], en["k"][:-1], vals.rand_key(rng)])
            if all(z["k"] != k for z in x["kv"]):
                en["k"] = k
        else:
            k = vals.rand_key(rng)
            if all(z["k"] != k for z in x["kv"]):
                x["kv"].append({"k": k, "v": vals.rand_leaf(rng)})
    elif t == 15:
        if x["a"] and rng.random() < 0.5:
            x["a"].pop()
        elif len(x["a"]) > 1:
            x["a"].reverse()
        elif not x["a"]:
            x["et"] = rng.choice([1, 2, 3, 4, 5, 10, 14, 15])
        else:
            x["a"] = x["a"] * 2
    elif t in (2, 3) and len(spots) and rng.random() < 0.4 and box[0] is x:
        put({"t": 5 - t, "n": x["n"]})
    else:
        put(vals.rand_leaf(rng, t))
    return box[0]


def tile_variants(rng, t):
    """one tile per field that differs from t in exactly that field"""
    out = []

    def alt(f):
        n = copy.deepcopy(t)
        f(n)
        out.append(n)

    alt(lambda n: n.__setitem__("sh", (n["sh"] + rng.randint(1, 20)) % 21))
    alt(lambda n: n.__setitem__("fl", n["fl"] ^ rng.choice([1, 2, 4])))
    alt(lambda n: n.__setitem__("ss", (n["ss"] + rng.randint(1, 7)) % 8))
    alt(lambda n: n.__setitem__("sp", (n["sp"] + rng.randint(1, 15)) % 16))
    alt(lambda n: n.__setitem__("st", (n["st"] + rng.randint(1, 255)) % 256))
    for s in range(4):
        for f in range(12):
            if f in (4, 5, 10, 11):
                alt(lambda n: n["e"][s].__setitem__(f, n["e"][s][f] + 1 if n["e"][s][f] < 127 else 0))
            elif f == 6:
                alt(lambda n: n["e"][s].__setitem__(f, (n["e"][s][f] + rng.randint(1, 7)) % 8))
            else:
                alt(lambda n: n["e"][s].__setitem__(f, 1 - n["e"][s][f]))
    alt(lambda n: n["e"].reverse())
    alt(lambda n: None)
    alt(lambda n: None)
    alt(lambda n: None)
    alt(lambda n: None)
    return out


def run(ctx):
    ctx.rules.append("every ordered pair of the 110 values of EqValMC; random variable trees against mutated, reordered and equal rebuilds; every field of every edge of random tiles changed alone; comparison with objects of other kinds; non-trivial: distinct pairs")
    ctx.assumptions.append("no NaN; bool is not stored in integer variables")
    ctx.model_check("EqValMC", ctx.scale("EqValMC.cfg", "EqValMCdeep.cfg"))
    ctx.expect_violation("EqValMC", "EqValMut.cfg", "arrays compared by length only")
    rng = ctx.rng
    cases = []

    def add(kind, a, b, **k):
        cases.append({"kind": kind, "a": a, "b": b, "seed": rng.getrandbits(30), **k})

    for g in ctx.generate("EqValMC", "EqValGen.cfg", count=False):
        add("var", g["a"], g["b"])
    for _ in range(ctx.scale(3000, 60000)):
        a = vals.rand_val(rng, rng.choice([0, 1, 2, 3]))
        b = a
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            b = mutate(rng, b)
        add("var", a, b)
        if rng.random() < 0.2:
            add("var", a, sort_kv(a))
    zero, vec = {"t": 4, "i": 0, "f": 0}, {"t": 10, "xi": 0, "xf": 0, "yi": 3, "yf": 0}
    for v in (zero, vec, {"t": 15, "et": 4, "a": [zero, zero]}, {"t": 15, "et": 10, "a": [vec]}, {"t": 14, "kv": [{"k": [97], "v": zero}, {"k": [98], "v": vec}]},
              {"t": 15, "et": 14, "a": [{"t": 14, "kv": [{"k": [97], "v": zero}]}]}):
        add("zero", v, {"t": 0})
    tiles = [{k: v for k, v in lv.rand_tile(rng, 0, 0, 0).items() if k not in "lxy"} for _ in range(ctx.scale(60, 1000))]
    tiles[0] = {"sh": 0, "fl": 4, "ss": 5, "sp": 0, "st": 1, "e": [[0] * 12 for _ in range(4)]}
    for t in tiles:
        for n in tile_variants(rng, t):
            add("tile", t, n)
    for _ in range(ctx.scale(300, 3000)):
        add("tile", rng.choice(tiles), rng.choice(tiles))
    for i in range(15):
        for t in tiles[:6]:
            add("other", t, {"t": 0}, base="tile", i=i)
        for ty in (1, 2, 3, 4, 5, 10, 14, 15):
            add("other", vals.rand_val(rng, 1, ty), {"t": 0}, base="var", i=i)
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(json.dumps([c["kind"], c["a"], c["b"], c.get("i")], sort_keys=True))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    good = [g for g in groups if g != ("crash",)]
    ctx.judge("EqTrace", good)
    if good:
        ctx.sample(good[len(good) // 2][0])
