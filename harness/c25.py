"""C25: fog data is addressable for every layer and sublayer."""
import json
import random

from . import vals
from .core import observe

BAD = -7777777


def ints(x, kind):
    """elements of an array variable as integers (total)"""
    from dustmaker import variable as V

    et = V.VariableUInt if kind == "u" else V.VariableFloat
    if x is None:
        return []
    if not isinstance(x, V.VariableArray) or x.value[0] is not et:
        return [BAD]
    out = []
    for el in x.value[1]:
        v = el.value if type(el) is et else None
        if kind == "u":
            out.append(vals.i32(v) if isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 2**32 else BAD)
        else:
            out.append(int(v * 8) if isinstance(v, float) and v * 8 == int(v * 8) and abs(v) < 1e6 else BAD)
    return out


NAMES = {"col": ("fog_colour", "u"), "per": ("fog_per", "f"), "grad": ("gradient", "u")}


def snap(t):
    d = {k: ints(t.variables.get(n), kind) for k, (n, kind) in NAMES.items()}
    rest = [{"k": k, "v": vals.proj(v)} for k, v in sorted(t.variables.items()) if k not in [n for n, _ in NAMES.values()]]
    return d, rest


def dispatch(c):
    from dustmaker import variable as V
    from dustmaker.entity import FogTrigger

    if c["op"] == "index":
        evs = []
        for layer, has, sub in c["pairs"]:
            got = observe(FogTrigger.get_layer_index, layer, sub) if has else observe(FogTrigger.get_layer_index, layer)
            n = got[1] if got[0] == "ok" else BAD
            evs.append({"op": "index", "layer": layer, "hassub": has, "sub": sub, "ok": got[0] == "ok", "n": n if isinstance(n, int) else BAD})
        return evs
    rng = random.Random(c["seed"])
    var = {}
    if c["col"] is not None:
        var["fog_colour"] = V.VariableArray(V.VariableUInt, [V.VariableUInt(rng.getrandbits(32)) for _ in range(c["col"])])
    if c["per"] is not None:
        var["fog_per"] = V.VariableArray(V.VariableFloat, [V.VariableFloat(rng.randrange(1, 9) / 8) for _ in range(c["per"])])
    if c["grad"] is not None:
        var["gradient"] = V.VariableArray(V.VariableUInt, [V.VariableUInt(rng.getrandbits(24)) for _ in range(c["grad"])])
    if c["sub"] is not None:
        var["has_sub_layers"] = V.VariableBool(c["sub"])
    for k in c["more"]:
        var[k] = V.VariableFloat(rng.randrange(8) / 4)
    t = FogTrigger(var)
    evs = []
    for op in c["ops"]:
        if op == "toggle":
            cur = t.variables.get("has_sub_layers")
            r = rng.random()
            if r < 0.3:
                del t.has_sub_layers
            else:
                t.has_sub_layers = r < 0.6 if cur is None else not cur.value
            continue
        (a, rest) = snap(t)
        flag = t.variables.get("has_sub_layers")
        e = {"op": op, "hassub": bool(flag is not None and flag.value is True)}
        if op == "norm":
            got = observe(t.normalize)
        else:
            layer = rng.randrange(21)
            sub = rng.choice([None, rng.randrange(25)]) if e["hassub"] else None
            v, w = rng.getrandbits(31), rng.randrange(9)
            e.update(layer=layer, hassub=sub is not None, sub=sub or 0, v=v, w=w)

            def act():
                i = t.get_layer_index(layer, sub) if sub is not None else t.get_layer_index(layer)
                t.colours[i] = v
                t.pers[i] = w / 8
                return t.colours[i], t.pers[i]

            got = observe(act)
            if got[0] == "ok":
                e["gotv"], e["gotw"] = got[1][0], int(got[1][1] * 8)
        (b, rest1) = snap(t)
        e.update(ok=got[0] == "ok", rest=rest == rest1)
        for k in NAMES:
            e[k + "0"], e[k + "1"] = a[k], b[k]
        evs.append(e)
    return evs


def run(ctx):
    ctx.rules.append("the index of every (layer, sublayer) pair from -3 to 24 and -3 to 28; normalising from every combination of array lengths around 0, 21 and 546 with and without sublayers (FogMC), missing arrays, repeated with changed settings and edits in between; non-trivial: distinct (lengths, setting, operations)")
    ctx.model_check("FogMC", ctx.scale("FogMC.cfg", "FogMCdeep.cfg"))
    ctx.expect_violation("FogMC", "FogMut.cfg", "a long blend array is kept")
    rng = ctx.rng
    pairs = [(lay, s is not None, s or 0) for lay in range(-3, 25) for s in [None, *range(-3, 29)]]
    cases = [{"op": "index", "pairs": pairs[i : i + 100]} for i in range(0, len(pairs), 100)]
    gen = ctx.generate("FogMC", "FogGen.cfg", count=False)

    def case(col, per, grad, sub, ops):
        more = rng.sample(["fog_speed", "gradient_middle", "star_top", "zz", "fog_colours"], rng.randint(0, 3))
        cases.append({"op": "trig", "col": col, "per": per, "grad": grad, "sub": sub, "ops": ops, "more": more, "seed": rng.getrandbits(30)})

    for g in gen:
        case(g["c"], g["p"], g["g"], g["sub"], ["norm", "norm", "edit"] if ctx.thorough or rng.random() < 0.3 else ["norm"])
    for col in (None, 3, 30):
        for per in (None, 3, 30):
            for grad in (None, 1, 4):
                for sub in (None, False, True):
                    case(col, per, grad, sub, ["norm", "norm"])
    for _ in range(ctx.scale(150, 3000)):
        n = [rng.choice([None, rng.randrange(30), rng.randrange(600)]) for _ in range(2)]
        case(n[0], n[1], rng.choice([None, 0, 1, 2, 3, 4, 7]), rng.choice([None, True, False]), ["norm", "edit", "edit"] + [x for _ in range(rng.randint(1, 3)) for x in ("toggle", "norm", "edit")])
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(json.dumps(c, sort_keys=True))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    good = [g for g in groups if g != ("crash",)]
    ctx.judge("FogTrace", good)
    ctx.sample({k: v for k, v in cases[-1].items() if k != "seed"})
