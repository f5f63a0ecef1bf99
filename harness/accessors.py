"""Histories of accessor use on levels, player starts and entities."""
import json
import random

from . import arrays as A
from . import vals
from .core import observe

NOV = {"t": 0}
BADV = {"t": -2}


def proj(var):
    if type(var).__name__ == "VariableFloat" and isinstance(var.value, float) and vals.fix(var.value) is None:
        return {"t": 4, "r": repr(var.value)}
    return vals.proj(var)


def proj_plain(x, t):
    if t == 4 and isinstance(x, float) and vals.fix(x) is None:
        return {"t": 4, "r": repr(x)}
    if t == 15:
        return vals.proj(x)
    return A.proj_plain(x, t)


def target(obj, attr):
    if attr[0] == "p" and attr[2:3] == ".":
        return obj.start_position(int(attr[1])), attr[3:]
    return obj, attr


def bad_array(rng):
    from dustmaker import variable as V

    return rng.choice([[], [1], None, V.VariableInt(1), (V.VariableInt, []), {}, V.VariableStruct({}), "x"])


def run_history(c):
    from dustmaker import entity as E
    from dustmaker.level import Level
    from dustmaker.variable import VariableArray

    rng = random.Random(c["seed"])
    rows = {r["a"]: r for r in c["rows"]}
    src = {k: vals.build(v) for k, v in c["init"]}

    def make():
        if c["c"] == "Level":
            lev = Level()
            lev.variables.clear()
            lev.variables.update(src)
            return lev
        obj = getattr(E, c["c"])(src) if src or rng.random() < 0.5 else getattr(E, c["c"])()
        # the entity has variables of its own
        for v in src.values():
            if isinstance(v, VariableArray):
                v.reverse()
                v.extend(list(v))
        src["later"] = vals.build({"t": 2, "n": 1})
        return obj

    evs = []

    def event(e, got):
        e["ok"], e["err"], e["ret"] = got[0] == "ok", "", NOV
        if got[0] == "ok":
            e["ret"] = got[1]
        elif got[0] == "exc":
            e["err"] = next((A.ERR[n] for n in got[1] if n in A.ERR), "other")
        seen = observe(lambda: [{"k": k, "v": proj(v)} for k, v in obj.variables.items()])
        e["vars"] = seen[1] if seen[0] == "ok" else [{"k": "?", "v": NOV}]
        evs.append(e)

    made = observe(make)
    if made[0] != "ok":
        return ("crash",)
    obj = made[1]
    event({"op": "new", "c": c["c"], "a": "", "k": "", "v": NOV, "init": [{"k": k, "v": v} for k, v in c["init"]]}, ("ok", NOV))
    for o in c["ops"]:
        op = o["op"]
        e = {"op": op, "c": c["c"], "a": o.get("a", ""), "k": o.get("k", ""), "v": o.get("v", NOV), "init": []}
        row = rows.get(e["a"])

        def act():
            if op == "poke":
                obj.variables[e["k"]] = vals.build(e["v"])
                return NOV
            on, name = target(obj, e["a"])
            t = row["t"]
            if op == "get":
                return proj_plain(getattr(on, name), t)
            if op == "setback":
                setattr(on, name, getattr(on, name))
            elif op == "set":
                if t == 15:
                    setattr(on, name, bad_array(rng) if e["v"]["t"] < 0 else vals.build(e["v"]))
                else:
                    setattr(on, name, A.bad_values(rng, t) if e["v"]["t"] < 0 else A.plain(e["v"]))
            elif op == "del":
                delattr(on, name)
            elif op == "append":
                getattr(on, name).append(A.bad_values(rng, row["d"]["et"]) if e["v"]["t"] < 0 else A.plain(e["v"]))
            return NOV

        event(e, observe(act))
    return evs


def value(rng, row):
    if row["t"] == 15:
        return {"t": 15, "et": row["d"]["et"], "a": [A.sort_kv(vals.rand_val(rng, 1, row["d"]["et"])) for _ in range(rng.choice([0, 1, 3]))]}
    return vals.rand_leaf(rng, row["t"])


def foreign(rng, t):
    while True:
        v = vals.rand_val(rng, 1)
        if v["t"] != t:
            return v


def rand_op(rng, rows):
    row = rng.choice(rows)
    op = rng.choice(["get", "get", "set", "set", "setback", "del", "append", "poke", "badset", "pokeother"])
    if op == "append" and row["t"] != 15:
        op = "get"
    o = {"op": op, "a": row["a"]}
    if op == "set":
        o["v"] = value(rng, row)
    elif op == "badset":
        o.update(op="set", v=BADV)
    elif op == "append":
        o["v"] = BADV if rng.random() < 0.2 else vals.rand_val(rng, 1, row["d"]["et"])
    elif op == "poke":
        o.update(a="", k=row["k"], v=value(rng, row) if rng.random() < 0.5 else foreign(rng, row["t"]))
    elif op == "pokeother":
        o.update(op="poke", a="", k=rng.choice(["x", "zz", row["a"].replace(".", "_") + "_"]), v=vals.rand_leaf(rng))
    return o


def from_spec(rng, hist, rows):
    ws = [r for r in rows if r["t"] != 15]
    ars = [r for r in rows if r["t"] == 15]
    w, a = (rng.choice(ws) if ws else None), (rng.choice(ars) if ars else None)
    ops, pool = [], {}
    for h in hist:
        row = w if h["o"] == "W" else a
        if row is None:
            continue
        o = {"op": h["op"], "a": row["a"]}
        if h["op"] == "poke":
            o.update(a="", k=row["k"], v=foreign(rng, row["t"]))
        elif h["op"] in ("set", "append"):
            if h["v"]["t"] < 0:
                o["v"] = BADV
            elif h["op"] == "append":
                o["v"] = vals.rand_val(rng, 1, row["d"]["et"])
            else:
                o["v"] = pool.setdefault(json.dumps([row["a"], h["v"]]), value(rng, row))
        ops.append(o)
    return ops


def run(ctx):
    ctx.model_check("AccessMC", ctx.scale("AccessMC.cfg", "AccessMCdeep.cfg"))
    ctx.expect_violation("AccessMC", "AccessMut.cfg", "a refused write that is stored")
    rng = ctx.rng
    table = []
    for f in ctx.generate("AccessTable", count=False)[0]["families"]:
        for cls in sorted(f["classes"]):
            table.append((cls, f["attrs"]))
    cases = []

    def case(cls, rows, ops, init=None):
        init = [[k, v] for k, v in (init or {}).items()]
        cases.append({"c": cls, "rows": rows, "ops": ops, "init": init, "seed": rng.getrandbits(30)})

    for cls, rows in table:
        for r in rows:
            for d in (None, value(rng, r), value(rng, r), foreign(rng, r["t"])):
                init = {} if d is None else {r["k"]: d}
                v = value(rng, r)
                ops = [{"op": "get", "a": r["a"]}, {"op": "setback", "a": r["a"]}, {"op": "set", "a": r["a"], "v": v}, {"op": "get", "a": r["a"]}, {"op": "set", "a": r["a"], "v": BADV},
                       {"op": "get", "a": r["a"]}, {"op": "del", "a": r["a"]}, {"op": "get", "a": r["a"]}, {"op": "del", "a": r["a"]}]
                if r["t"] == 15:
                    ops += [{"op": "append", "a": r["a"], "v": vals.rand_val(rng, 1, r["d"]["et"])}, {"op": "get", "a": r["a"]}]
                case(cls, rows, ops, init)
    wide = [t for t in table if any(r["t"] == 15 for r in t[1]) and any(r["t"] != 15 for r in t[1])]
    hists = [g["hist"] for g in ctx.generate("AccessMC", "AccessGen.cfg", count=False)]
    for h in hists if ctx.thorough else rng.sample(hists, 2000):
        cls, rows = rng.choice(wide)
        case(cls, rows, from_spec(rng, h, rows))
    for _ in range(ctx.scale(1500, 20000)):
        cls, rows = rng.choice(table)
        init = {}
        for r in rows:
            if rng.random() < 0.4:
                init[r["k"]] = value(rng, r) if rng.random() < 0.8 else foreign(rng, r["t"])
        case(cls, rows, [rand_op(rng, rows) for _ in range(rng.choice([3, 8, 25]))], init)
    groups = ctx.pmap(run_history, cases)
    for c, g in zip(cases, groups):
        ctx.count(json.dumps(c, sort_keys=True))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    good = [g for g in groups if g != ("crash",)]
    ctx.judge("AccessTrace", good)
    if good:
        ctx.sample([[e["op"], e["c"], e["a"]] for e in good[-1]])
