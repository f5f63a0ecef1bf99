"""C31: objects are independent of each other."""
import copy
import hashlib
import io
import json
import random

from . import levels as lv
from . import replays as rp
from . import vals
from .core import observe


def dig(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:10]


# ------------------------------------------------------------- parts of objects
def tile_parts(pre, t):
    p = lv.proj_tile(t)
    out = [(pre + "a", dig({k: v for k, v in p.items() if k != "e"}))]
    out += [(pre + "e%d" % i, dig(e)) for i, e in enumerate(p["e"])]
    return out


def var_parts(pre, d):
    return [(pre + "v:" + repr(k), dig(vals.proj(v))) for k, v in d.items()]


def ent_parts(pre, e, pos=()):
    return [(pre + "a", dig([str(e.etype), lv.nat(e.rotation), lv.nat(e.layer), lv.bit(e.flip_x), lv.bit(e.flip_y), lv.bit(e.visible), [repr(x) for x in pos]]))] + var_parts(pre, e.variables)


def parts(o):
    from dustmaker.entity import Entity
    from dustmaker.level import Level
    from dustmaker.replay import EntityData, PlayerData, Replay
    from dustmaker.tile import Tile

    if isinstance(o, Tile):
        return tile_parts("", o)
    if isinstance(o, Entity):
        return ent_parts("", o)
    if isinstance(o, PlayerData):
        return [("ch", dig(int(o.character)))] + [("i%d" % int(k), dig([repr(x) for x in v])) for k, v in o.intents.items()]
    if isinstance(o, EntityData):
        return [("f", dig(rp.frames_of(o)))]
    if isinstance(o, Replay):
        out = [("a", dig([o.version, list(o.username), list(o.level), o.frames]))]
        for i, p in enumerate(o.players):
            out += [("p%d" % i + k, v) for k, v in parts(p)]
        for i, e in o.entities.items():
            out += [("n%d" % i + k, v) for k, v in parts(e)]
        return out
    if isinstance(o, Level):
        out = var_parts("", o.variables) + [("s", dig(list(o.sshot)))]
        for pre, q in (("", o), ("b", o.backdrop)):
            for k, t in q.tiles.items():
                out += tile_parts("%st%r" % (pre, tuple(map(int, k))), t)
            for i, v in q.props.items():
                out.append(("%sp%d" % (pre, i), dig(lv.proj_prop(i, v))))
        for i, v in o.entities.items():
            out += ent_parts("n%d" % i, v[2], v[:2])
        return out
    return [("m", dig([[repr(float(x)) for x in r] for r in o]))]


# ------------------------------------------------------------- changes to one part
def poke_tile(rng, t):
    """returns the part of the tile that was changed"""
    from dustmaker.tile import TileSpriteSet

    if rng.random() < 0.3:
        t.sprite_palette = (t.sprite_palette + 1) % 16
        return "a"
    k = rng.randrange(4)
    e = t.edge_data[k]
    r = rng.randrange(6)
    if r == 0:
        e.solid = not e.solid
    elif r == 1:
        e.visible = not e.visible
    elif r == 2:
        e.caps = (not e.caps[0], e.caps[1])
    elif r == 3:
        e.filth_sprite_set = TileSpriteSet((int(e.filth_sprite_set) + 1) % 8)
    elif r == 4:
        e.angles = (e.angles[0], (e.angles[1] + 7) % 100)
    else:
        e.filth_caps = (e.filth_caps[0], not e.filth_caps[1])
    return "e%d" % k


def poke_var(rng, var):
    """changes a variable in place, as deep as it goes"""
    t = vals.proj(var)["t"]
    if t == 14:
        inner = [v for v in var.value.values() if rng.random() < 0.5]
        if inner:
            return poke_var(rng, inner[0])
        var.value["poked%d" % rng.randrange(10**6)] = vals.build({"t": 2, "n": 5})
    elif t == 15:
        et = int(vals.proj(var)["et"])
        if len(var) and et in (14, 15) and rng.random() < 0.6:
            return poke_var(rng, var.value[1][rng.randrange(len(var))])
        leaf = {"t": 14, "kv": []} if et == 14 else {"t": 15, "et": 2, "a": []} if et == 15 else vals.rand_leaf(rng, et)
        var.append(vals.build(leaf).value)
    elif t == 1:
        var.value = not var.value
    elif t in (2, 3):
        var.value = (var.value + 1) % 1000
    elif t == 4:
        var.value = 1.5 if var.value != 1.5 else 2.5
    elif t == 5:
        var.value = var.value + b"x"
    else:
        var.value = (var.value[1] + 1.0, 3.25)
    return None


def poke_vars(rng, d):
    if d and rng.random() < 0.85:
        k = rng.choice(sorted(d))
        if rng.random() < 0.8:
            poke_var(rng, d[k])
        else:
            del d[k]
    else:
        k = "added%d" % rng.randrange(10**6)
        d[k] = vals.build({"t": 5, "s": [1]})
    return "v:" + repr(k)


def poke_ent(rng, e):
    if rng.random() < 0.3:
        e.rotation = (e.rotation + 1) % 65536
        return "a"
    return poke_vars(rng, e.variables)


def poke_player(rng, p):
    from dustmaker.replay import Character, IntentStream

    if rng.random() < 0.2:
        p.character = Character((int(p.character) + 1) % 8)
        return "ch"
    i = IntentStream(rng.randrange(8))
    p.intents.setdefault(i, []).append(1)
    return "i%d" % int(i)


def poke_frames(rng, d):
    from dustmaker.replay import EntityFrame

    if d.frames and rng.random() < 0.5:
        rng.choice(d.frames).x_pos += 10.0
    else:
        d.frames.append(EntityFrame(frame=3))
    return "f"


def poke(rng, o):
    from dustmaker.entity import Entity
    from dustmaker.level import Level
    from dustmaker.replay import EntityData, PlayerData, Replay
    from dustmaker.tile import Tile

    if isinstance(o, Tile):
        return poke_tile(rng, o)
    if isinstance(o, Entity):
        return poke_ent(rng, o)
    if isinstance(o, PlayerData):
        return poke_player(rng, o)
    if isinstance(o, EntityData):
        return poke_frames(rng, o)
    if isinstance(o, Replay):
        r = rng.random()
        if r < 0.4 and o.players:
            i = rng.randrange(len(o.players))
            return "p%d" % i + poke_player(rng, o.players[i])
        if r < 0.7 and o.entities:
            i = rng.choice(sorted(o.entities))
            return "n%d" % i + poke_frames(rng, o.entities[i])
        if r < 0.85:
            i = max([k for k in o.entities if k < 10**6], default=0) + 1
            o.entities[i] = type(next(iter(o.entities.values())))() if o.entities else EntityData()
            return "n%df" % i
        o.frames += 1
        return "a"
    if isinstance(o, Level):
        for _ in range(10):
            what = rng.choice(["tile", "tile", "tile", "ent", "ent", "prop", "vars", "vars", "btile", "bprop", "shot", "pos", "newtile"])
            q, pre = (o.backdrop, "b") if what[0] == "b" else (o, "")
            if what in ("tile", "btile") and q.tiles:
                k = rng.choice(sorted(q.tiles))
                return "%st%r" % (pre, tuple(map(int, k))) + poke_tile(rng, q.tiles[k])
            if what in ("prop", "bprop") and q.props:
                i = rng.choice(sorted(q.props))
                p = q.props[i][3]
                p.palette = (p.palette + 1) % 16
                return "%sp%d" % (pre, i)
            if what == "ent" and q.entities:
                i = rng.choice(sorted(q.entities))
                return "n%d" % i + poke_ent(rng, q.entities[i][2])
            if what == "vars":
                return poke_vars(rng, o.variables)
            if what == "shot":
                o.sshot = o.sshot + b"z"
                return "s"
            if what == "pos":
                o.start_position(1).x = rng.randrange(-500, 500)
                return "v:" + repr("p1_x")
        o.sshot = o.sshot + b"z"
        return "s"
    return None


# ------------------------------------------------------------- histories
def write_level(o):
    from dustmaker import DFWriter

    buf = io.BytesIO()
    with DFWriter(buf, noclose=True) as w:
        w.write_level(o)
    return buf.getvalue()


def read_level(data):
    from dustmaker import DFReader

    with DFReader(io.BytesIO(data)) as r:
        return r.read_level()


def write_replay(o):
    from dustmaker import DFWriter

    buf = io.BytesIO()
    with DFWriter(buf, noclose=True) as w:
        w.write_replay(o)
    return buf.getvalue()


def read_replay(data):
    from dustmaker import DFReader

    with DFReader(io.BytesIO(data)) as r:
        return r.read_replay()


class History:
    def __init__(self, c):
        self.rng = random.Random(c["seed"])
        self.pop = []
        self.evs = []
        self.kind = c["kind"]
        if self.kind == "level":
            self.bytes = write_level(lv.build(c["content"]))
        if self.kind == "replay":
            self.bytes = write_replay(rp.build(c["content"]))
        self.vars = c.get("vars")

    def log(self, out="ok", may="none", o=-1, p="", like=-1, op=""):
        allp = [["o%d" % i, p_, c_] for i, obj in enumerate(self.pop) for p_, c_ in parts(obj)]
        # an object without parts still exists
        self.evs.append({"first": not self.evs, "op": op, "may": may, "o": "o%d" % o, "p": p, "like": "o%d" % like if like >= 0 else "", "out": out, "all": allp})

    def add(self, obj, op, like=-1):
        self.pop.append(obj)
        self.log(may="new", o=len(self.pop) - 1, like=like, op=op)

    def fresh(self):
        from dustmaker.level import Level
        from dustmaker.replay import EntityData, PlayerData, Replay
        from dustmaker.tile import Tile

        rng = self.rng
        if self.kind == "level":
            return Level()
        if self.kind == "replay":
            return rng.choice([Replay, PlayerData, EntityData])()
        if self.kind == "tile":
            return Tile()
        cls = rng.choice([lv.classes()[k] for k in sorted(lv.classes())]) if not self.pop or rng.random() < 0.3 else type(self.pop[0])
        return cls()

    def read(self):
        if self.kind == "level":
            return read_level(self.bytes)
        if self.kind == "replay":
            return read_replay(self.bytes)
        if self.kind == "tile":
            return lv.build_tile({k: v for k, v in lv.rand_tile(self.rng, 0, 0, 0).items() if k not in "lxy"})
        cls = type(self.pop[0]) if self.pop else lv.classes()[self.rng.choice(sorted(lv.classes()))]
        return cls(vals.build(self.vars).value)

    def step(self, op, i, j):
        rng, o = self.rng, self.pop[i] if 0 <= i < len(self.pop) else None
        if op in ("new", "read"):
            got = observe(self.fresh if op == "new" else self.read)
            if got[0] != "ok":
                return self.log(out="failed", op=op)
            return self.add(got[1], op)
        if op == "copy":
            if self.kind == "entity" and rng.random() < 0.7:
                # a new entity with the variables of another
                got = observe(lambda: type(o)(o.variables, o.rotation, o.layer, o.flip_x, o.flip_y, o.visible))
                like = i if getattr(type(o), "TYPE_IDENTIFIER", None) is not None else -1
            elif self.kind == "level" and rng.random() < 0.3:
                got, like = observe(lambda: read_level(self.bytes)), -1
            elif self.kind == "tile" and rng.random() < 0.6:
                got = observe(lambda: list(o.upscale(rng.choice([1, 2, 3]))))
                if got[0] != "ok":
                    return self.log(out="failed", op=op)
                for _dx, _dy, t in got[1][:3]:
                    self.add(t, op)
                return None
            else:
                got, like = observe(copy.deepcopy, o), i
            if got[0] != "ok":
                return self.log(out="failed", op=op)
            return self.add(got[1], op, like)
        if op == "merge":
            if self.kind != "level":
                return None
            got = observe(o.merge, self.pop[j], remap_ids=rng.random() < 0.7)
            return self.log(out="ok" if got[0] == "ok" else "failed", may="only", o=i, op=op)
        if op == "write":
            if self.kind == "level":
                got = observe(write_level, o)
            elif self.kind == "replay":
                from dustmaker.replay import Replay

                got = observe(write_replay, o) if isinstance(o, Replay) else ("ok", None)
            else:
                got = observe(lambda: (repr(o), o == o))
            return self.log(out="ok" if got[0] == "ok" else "failed", may="none", op=op)
        if op == "transform":
            from dustmaker.transform import TxMatrix

            mat = rng.choice([TxMatrix.IDENTITY, *TxMatrix.ROTATE, TxMatrix.HFLIP, TxMatrix.VFLIP])
            if self.kind == "level":
                acts = [lambda: o.transform(mat), lambda: o.upscale(2), lambda: o.upscale(2, mat=mat), o.remap_ids, lambda: o.translate(48, 96), o.calculate_edge_caps,
                        lambda: o.calculate_edge_visibility(), o.calculate_max_id, o.flip_horizontal]
            elif self.kind == "replay":
                return self.step("change", i, j)
            else:
                acts = [lambda: o.transform(mat)]
            got = observe(rng.choice(acts))
            return self.log(out="ok" if got[0] == "ok" else "failed", may="only", o=i, op=op)
        if op == "array":
            names = [n for n in sorted(dir(type(o))) if isinstance(getattr(type(o), n, None), property)]

            def use():
                from dustmaker.variable import VariableArray

                for n in rng.sample(names, min(len(names), 6)):
                    v = getattr(o, n)
                    if isinstance(v, VariableArray):
                        poke_var(rng, v)

            got = observe(use)
            return self.log(out="ok" if got[0] == "ok" else "failed", may="only", o=i, op=op)
        before = dict(parts(o))
        p = poke(rng, o)
        if dict(parts(o)) == before:
            return self.log(may="none", op="noop")
        return self.log(may="part", o=i, p=p, op=op)


def dispatch(c):
    h = History(c)
    for op in c["ops"]:
        n = len(h.pop)
        if n == 0 and op["op"] not in ("new", "read"):
            continue
        i, j = op["o"] - 1, op["like"] - 1
        if op["op"] not in ("new", "read") and i >= n:
            i = n - 1
        if op["op"] == "copy":
            i = min(max(op["like"] - 1, 0), n - 1)
        if op["op"] == "merge":
            j = min(max(j, 0), n - 1)
            if j == i:
                continue
        h.step(op["op"], i, j)
    return h.evs


def small_content(rng):
    c = lv.rand_content(rng, rng.choice([0, 1, 2, 3]))
    c["sshot"] = c["sshot"][:3]

    def near(v, n):
        return v % n

    for k in ("tiles", "btiles"):
        cells = {}
        for t in c[k]:
            t = dict(t, x=t["x"] % 40 - 20, y=t["y"] % 40 - 20)
            cells[t["l"], t["x"], t["y"]] = t
        c[k] = list(cells.values())
    for k in ("props", "bprops"):
        c[k] = [dict(p, px=near(p["px"], 4000), py=near(p["py"], 4000)) for p in c[k]]
    ids = set()
    for k in ("props", "ents", "bprops"):
        out = []
        for p in c[k]:
            p = dict(p, id=p["id"] % 5000)
            if p["id"] not in ids:
                ids.add(p["id"])
                out.append(p)
        c[k] = out
    c["ents"] = [dict(e, xi=near(e["xi"], 4000), yi=near(e["yi"], 4000)) for e in c["ents"]]
    return c


def run(ctx):
    ctx.rules.append("every history of four (thorough: five) operations on up to three objects of the ShareMC heap model, on levels, entities of every class, tiles and replays, and random histories of up to 14 operations with default arrays; every part of every object is compared after every operation; non-trivial: distinct history and kind")
    ctx.assumptions.append("objects are only shared by what the library does: the drivers never insert one object in two places")
    ctx.model_check("ShareMC", ctx.scale("ShareMC.cfg", "ShareMCdeep.cfg"))
    ctx.expect_violation("ShareMC", "ShareMut.cfg", "merging takes the other object's parts instead of copies")
    rng = ctx.rng
    gen = [g["ops"] for g in ctx.generate("ShareMC", ctx.scale("ShareGen.cfg", "ShareGenDeep.cfg"), count=False)]
    gen = sorted({json.dumps(g, sort_keys=True) for g in gen})
    gen = [json.loads(g) for g in (gen if len(gen) < 6000 else rng.sample(gen, 6000))]
    kinds = ["level", "entity", "tile", "replay"]
    cases = []
    for i, g in enumerate(gen):
        for kind in ["level", kinds[1 + i % 3]]:
            cases.append({"kind": kind, "ops": g})
    for _ in range(ctx.scale(500, 6000)):
        n = 0
        ops = []
        for _k in range(rng.randint(5, 14)):
            op = rng.choice(["new", "read"]) if n == 0 or (n < 5 and rng.random() < 0.2) else rng.choice(["copy", "merge", "change", "change", "change", "transform", "write", "array"])
            if op == "copy" and n >= 6:
                op = "change"
            if op in ("new", "read", "copy"):
                n += 1
            ops.append({"op": op, "o": rng.randint(1, max(n, 1)), "p": "", "like": rng.randint(1, max(n, 1))})
        cases.append({"kind": rng.choice(kinds), "ops": ops})
    for c in cases:
        c["seed"] = rng.getrandbits(30)
        if c["kind"] == "level":
            c["content"] = small_content(rng)
            for e in c["content"]["ents"]:
                e["vars"] = {"t": 14, "kv": []} if rng.random() < 0.5 else e["vars"]
        elif c["kind"] == "replay":
            c["content"] = rp.rand_replay(rng, small=True)
        elif c["kind"] == "entity":
            c["vars"] = vals.rand_val(rng, 2, 14)
        if c["kind"] != "level" and c["kind"] != "replay":
            for o in c["ops"]:
                if o["op"] == "merge":
                    o["op"] = "array" if c["kind"] == "entity" else "transform"
        if c["kind"] in ("level", "tile", "replay"):
            for o in c["ops"]:
                if o["op"] == "array":
                    o["op"] = "change"
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(json.dumps([c["kind"], c["ops"]], sort_keys=True))
        if g == ("crash",):
            ctx.violation(["crash"], {k: v for k, v in c.items() if k != "content"})
    ctx.judge("ShareTrace", [g for g in groups if g and g != ("crash",)])
    ctx.sample({k: v for k, v in cases[-1].items() if k != "content"})
