"""C28: entities are read into the class of their type, including user types."""
import io
import json
import random

from . import levels as lv
from .core import observe



def dispatch(c):
    from dustmaker import entity as E
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter
    from dustmaker.entity import Entity, bind_prop
    from dustmaker.level import Level
    from dustmaker.transform import TxMatrix
    from dustmaker.variable import VariableInt

    rng = random.Random(c["seed"])
    calls = {}
    maps = []

    def define(name, ident, base):
        def transform(self, mat):
            calls.setdefault("t", []).append(id(self))
            maps.append(tuple(tuple(mat[r][k] for k in range(3)) for r in range(3)))
            super(cls, self).transform(mat)

        def remap_ids(self, id_map):
            calls.setdefault("r", []).append(id(self))
            super(cls, self).remap_ids(id_map)

        cls = type(name, (base,), {"TYPE_IDENTIFIER": ident, "transform": transform, "remap_ids": remap_ids, "power": bind_prop("power_", VariableInt, 7)})
        return cls

    def write(level):
        buf = io.BytesIO()
        with DFWriter(buf, noclose=True) as w:
            w.write_level(level)
        return buf.getvalue()

    def read(data):
        with DFReader(io.BytesIO(data)) as r:
            return r.read_level()

    evs = []
    defs = []
    mine = {}
    for step in c["steps"]:
        if step["op"] == "define":
            base = getattr(E, step["base"], Entity)
            mine[step["i"]] = define(step["c"], step["i"], base)
            defs.append({"i": step["i"], "c": step["c"]})
            got = observe(lambda: mine[step["i"]]().etype)
            evs.append({"op": "new", "ok": got[0] == "ok", "etype": str(got[1]) if got[0] == "ok" else "?", "want": step["i"]})
        elif step["op"] == "make":
            got = observe(lambda: getattr(E, step["c"])().etype)
            evs.append({"op": "new", "ok": got[0] == "ok", "etype": str(got[1]) if got[0] == "ok" else "?", "want": step["want"]})
        elif step["op"] == "read":
            types = step["types"]

            def go():
                lev = Level()
                for k, t in enumerate(types):
                    ent = Entity({"power_": VariableInt(k)} if k % 2 else {})
                    ent.etype = t
                    lev.add_entity(float(48 * k), -float(k), ent, 100 + k)
                back = read(write(lev))
                out = []
                for i in sorted(back.entities):
                    ent = back.entities[i][2]
                    k = i - 100
                    own = type(ent).__name__ in [d["c"] for d in defs]
                    out.append({"cls": type(ent).__name__, "etype": str(ent.etype), "val": ent.power if own else 0, "want": (k if k % 2 else 7) if own else 0})
                again = read(write(back))
                return out, [str(again.entities[i][2].etype) for i in sorted(again.entities)]

            got = observe(go)
            evs.append({"op": "read", "ok": got[0] == "ok", "types": types, "defs": [dict(d) for d in defs], "got": got[1][0] if got[0] == "ok" else [], "again": got[1][1] if got[0] == "ok" else []})
        elif step["op"] == "hooks" and mine:
            lev = Level()
            ents = []
            for k in range(step["n"]):
                ent = mine[rng.choice(sorted(mine))]()
                ents.append(ent)
                lev.add_entity(float(rng.randrange(-500, 500)), 0.0, ent)
            calls.clear()
            maps.clear()
            how = step["how"]
            mat = TxMatrix.ROTATE[rng.randrange(4)] * (TxMatrix.HFLIP if rng.random() < 0.5 else TxMatrix.IDENTITY)
            if how == "remap":
                got = observe(lev.remap_ids, rng.choice([1, 100, 5000]))
                cnt = calls.get("r", [])
            else:
                act = {"transform": lambda: lev.transform(mat), "hflip": lev.flip_horizontal, "vflip": lev.flip_vertical, "rotate": lambda: lev.rotate(rng.randrange(1, 4)), "translate": lambda: lev.translate(48, 96), "upscale": lambda: lev.upscale(2)}[how]
                got = observe(act)
                cnt = calls.get("t", [])
            live = [id(v[2]) for v in lev.entities.values()]
            evs.append({"op": "hooks", "ok": got[0] == "ok", "calls": [cnt.count(i) for i in live], "args": how != "transform" or all(m == tuple(tuple(mat[r][k] for k in range(3)) for r in range(3)) for m in maps)})
    return evs


def run(ctx):
    ctx.rules.append("every sequence of three definitions over two documented and two new entity types (EntTypesMC), each followed by reading levels with all documented, defined and unknown types; construction of every class; transform and remap hooks of user classes under every level operation; non-trivial: distinct histories")
    ctx.assumptions.append("user classes name their own TYPE_IDENTIFIER")
    ctx.model_check("EntTypesMC", ctx.scale("EntTypesMC.cfg", "EntTypesMCdeep.cfg"))
    ctx.expect_violation("EntTypesMC", "EntTypesMut.cfg", "a documented class cannot be replaced")
    rng = ctx.rng
    names = [r["i"] for r in ctx.generate("EntTypesTable", count=False)[0]["rows"]]
    want = {r["c"]: r["i"] for r in ctx.generate("EntTypesTable", count=False)[0]["rows"]}
    unknown = ["z_mine", "z_other", "unknown_type", "entity", "kill_box2", "Kill_box", "AI_controller_", "a"]
    bases = ["Entity", "Entity", "Trigger", "Enemy", "Apple", "CheckPoint", "FogTrigger", "DeathZone", "LevelEnd"]
    cases = []

    def reads(n):
        return {"op": "read", "types": [rng.choice(names + unknown + ["score_book", "hittable_apple", "z_mine"] * 8) for _ in range(n)]}

    cases.append({"steps": [{"op": "read", "types": names}, {"op": "read", "types": names[::-1] + unknown}] + [{"op": "make", "c": c, "want": want[c]} for c in sorted(want)] + [{"op": "make", "c": "Entity", "want": "unknown_type"}]})
    hist = [g["defs"] for g in ctx.generate("EntTypesMC", "EntTypesGen.cfg", count=False)]
    for d in hist * ctx.scale(1, 4):
        steps = [reads(4)]
        for x in d:
            steps += [{"op": "define", "i": x["i"], "c": x["c"], "base": rng.choice(bases)}, reads(rng.choice([3, 12]))]
            steps.append({"op": "hooks", "n": rng.choice([0, 1, 4]), "how": rng.choice(["transform", "hflip", "vflip", "rotate", "translate", "upscale", "remap", "remap"])})
        cases.append({"steps": steps})
    for _ in range(ctx.scale(60, 1500)):
        steps = []
        for k in range(rng.choice([1, 2, 5])):
            ident = rng.choice(names + unknown + ["q%d" % rng.randrange(9)])
            steps += [{"op": "define", "i": ident, "c": "U%d" % k, "base": rng.choice(bases)}, {"op": "read", "types": [ident] + reads(6)["types"] + [ident]}]
            steps.append({"op": "hooks", "n": rng.choice([1, 3, 7]), "how": rng.choice(["transform", "hflip", "vflip", "rotate", "translate", "upscale", "remap", "remap"])})
        cases.append({"steps": steps})
    for c in cases:
        c["seed"] = rng.getrandbits(30)
    groups = ctx.pmap(dispatch, cases, chunk=1)
    for c, g in zip(cases, groups):
        ctx.count(json.dumps(c, sort_keys=True))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    good = [g for g in groups if g != ("crash",)]
    ctx.judge("EntTrace", good)
    ctx.sample(cases[-1]["steps"])
