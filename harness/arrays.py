"""Histories of operations on array variables."""
import copy

from . import vals
from .core import observe

NOV = {"t": 0}
BADV = {"t": -2}


def sort_kv(v):
    """structs with their keys in order (dict equality ignores the order)"""
    if v["t"] == 14:
        return {"t": 14, "kv": sorted(({"k": e["k"], "v": sort_kv(e["v"])} for e in v["kv"]), key=lambda e: e["k"])}
    if v["t"] == 15:
        return {"t": 15, "et": v["et"], "a": [sort_kv(x) for x in v["a"]]}
    return v


def pool(rng, et, n):
    return [sort_kv(vals.rand_val(rng, 2, et)) for _ in range(n)]


def plain(v):
    return vals.build(v).value


def proj_plain(x, et):
    """abstract value of a plain value of the element type (total)"""
    class Shell:
        pass

    s = Shell()
    s.value = x
    if et == 15 and not (isinstance(x, tuple) and len(x) == 2):
        return vals.bad("array")
    Shell.__name__ = vals.NAMES[et]
    return vals.proj(s)


def bad_values(rng, et):
    """plain values that are not of the element type"""
    from dustmaker import variable as V

    c = {1: [0, 1, "x", None, b""], 2: [1.0, 2**31, -(2**31) - 1, "1", None, b"1", (1,)], 3: [-1, 2**32, 0.5, "1", None, b""],
         4: [1, 0, "1.0", None, (1.0,), True], 5: ["x", 1, None, [1], bytearray(b"x")], 10: [(1, 2), (1, 2.0), ("1", 2.0), (None, 1.0), (1.0, None), (1.0,), (1.0, 2.0, 3.0), 1.0, None, [1.0, 2.0], (1.0, 2)],
         14: [{"a": 1}, {1: V.VariableInt(1)}, 7, "ab", {"a": None}], 15: [(V.VariableInt, [1]), (V.VariableInt, [V.VariableUInt(1)]), 3, (int, []), (V.VariableFloat, [V.VariableInt(1)])]}
    return rng.choice(c[et])


ERR = {"IndexError": "index", "ValueError": "value"}


def run_history(c):
    """events of one history on a fresh array"""
    import random

    rng = random.Random(c["seed"])
    et = c["et"]
    cls = vals.vclass(et)
    from dustmaker.variable import VariableArray

    arr = None
    evs = []
    for o in c["ops"]:
        e = {"op": o["op"], "i": o.get("i", 0), "v": o.get("v", NOV), "vs": o.get("vs", []), "a": o.get("a", {"has": False, "x": 0}), "b": o.get("b", {"has": False, "x": 0}), "et": et}
        op, i = e["op"], e["i"]
        v = (bad_values(rng, et) if e["v"]["t"] < 0 else plain(e["v"])) if e["v"]["t"] else None
        vs = [bad_values(rng, et) if x["t"] < 0 else plain(x) for x in e["vs"]]

        def act():
            nonlocal arr
            if op == "new":
                arr = VariableArray(cls, [vals.build(x) for x in e["vs"]]) if e["vs"] or rng.random() < 0.5 else VariableArray(cls)
            elif op == "get":
                return proj_plain(arr[i], et)
            elif op == "set":
                arr[i] = v
            elif op == "insert":
                arr.insert(i, v)
            elif op == "append":
                arr.append(v)
            elif op == "del":
                del arr[i]
            elif op == "delslice":
                del arr[slice(e["a"]["x"] if e["a"]["has"] else None, e["b"]["x"] if e["b"]["has"] else None, i)]
            elif op == "pop":
                return proj_plain(arr.pop(i), et)
            elif op == "poplast":
                return proj_plain(arr.pop(), et)
            elif op == "remove":
                arr.remove(v)
            elif op == "reverse":
                arr.reverse()
            elif op == "extend":
                arr.extend(rng.choice([list, iter, tuple])(vs))
            elif op == "iadd":
                x = arr
                x += vs
                if x is not arr:
                    return vals.bad("another array")
            elif op == "double":
                arr.extend(arr)
            elif op == "clear":
                arr.clear()
            elif op == "index":
                return {"t": 2, "n": arr.index(v)}
            elif op == "count":
                return {"t": 2, "n": arr.count(v)}
            elif op == "contains":
                return {"t": 1, "b": bool(v in arr)}
            elif op == "len":
                return {"t": 2, "n": len(arr)}
            elif op == "reversed":
                return {"t": 15, "et": 0, "a": [proj_plain(x, et) for x in reversed(arr)]}
            return NOV

        got = observe(act, timeout=20)
        e["ok"], e["err"], e["ret"] = got[0] == "ok", "", NOV
        if got[0] == "ok":
            e["ret"] = got[1]
        elif got[0] == "timeout":
            e["err"] = "timeout"
        else:
            e["err"] = next((ERR[n] for n in got[1] if n in ERR), "other")
        it = observe(lambda: [proj_plain(x, et) for x in arr], timeout=20)
        e["plain"] = it[1] if it[0] == "ok" else [vals.bad("iteration")]
        b = observe(vals.proj, arr)
        e["boxes"] = b[1] if b[0] == "ok" else vals.bad("boxes")
        evs.append(copy.deepcopy(e))
        if got[0] == "timeout":
            break
    return evs


def rand_ops(rng, et, n):
    p = pool(rng, et, rng.choice([1, 2, 3, 6]))

    def val():
        return BADV if rng.random() < 0.08 else rng.choice(p)

    def bound():
        return {"has": rng.random() < 0.75, "x": rng.randint(-7, 7)}

    ops = [{"op": "new", "vs": [rng.choice(p) for _ in range(rng.choice([0, 0, 1, 2, 5]))]}]
    for _ in range(n):
        op = rng.choice(["get", "set", "insert", "append", "append", "insert", "del", "delslice", "pop", "poplast", "remove", "reverse", "extend", "iadd", "double", "clear", "index", "count", "contains", "len", "reversed"])
        o = {"op": op}
        if op in ("get", "set", "insert", "del", "pop"):
            o["i"] = rng.choice([0, 1, -1, rng.randint(-6, 6)])
        if op in ("set", "insert", "append"):
            o["v"] = val()
        if op in ("remove", "index", "count", "contains"):
            o["v"] = rng.choice(p)
        if op in ("extend", "iadd"):
            o["vs"] = [val() for _ in range(rng.choice([0, 1, 2, 3]))]
        if op == "delslice":
            o.update(a=bound(), b=bound(), i=rng.choice([1, 1, 2, -1, 3, -2]))
        if op == "clear" and rng.random() < 0.7:
            continue
        if op == "double" and rng.random() < 0.5:
            continue
        ops.append(o)
    return ops


def from_spec(rng, hist, et):
    """the abstract history over values of the element type"""
    p = pool(rng, et, 2)
    ops = [{"op": "new"}]
    for h in hist:
        o = {"op": h["op"], "i": h["i"]}
        if h["op"] in ("insert", "append", "set", "remove"):
            o["v"] = p[h["v"]]
        ops.append(o)
    return ops


def long_val(rng, et):
    """a value larger than small size fields hold"""
    n = rng.choice([256, 257, 300])
    if et == 15:
        return {"t": 15, "et": 2, "a": [{"t": 2, "n": j} for j in range(n)]}
    if et == 5:
        return {"t": 5, "s": [j % 256 for j in range(n)]}
    if et == 14:
        return {"t": 14, "kv": [{"k": k, "v": {"t": 1, "b": True}} for k in sorted([97 + j // 26, 97 + j % 26] for j in range(60))]}
    return sort_kv(vals.rand_val(rng, 2, et))


def long_ops(rng, et):
    """a short history over a long array or long elements"""
    p = [long_val(rng, et), sort_kv(vals.rand_val(rng, 1, et))]
    big = et not in (5, 14, 15)
    size = rng.choice([255, 256, 257, 300]) if big else 2
    ops = [{"op": "new", "vs": [rng.choice(p) for _ in range(size)]}]
    for _ in range(4):
        op = rng.choice(["get", "set", "insert", "append", "del", "pop", "poplast", "extend", "count", "len", "contains"])
        o = {"op": op}
        if op in ("get", "set", "insert", "del", "pop"):
            o["i"] = rng.choice([0, size - 1, -1, -size, size // 2, size - 2])
        if op in ("set", "insert", "append", "count", "contains"):
            o["v"] = p[rng.randrange(2)]
        if op == "extend":
            o["vs"] = [p[0], p[1]]
        ops.append(o)
    return ops + [{"op": "append", "v": p[0]}, {"op": "get", "i": -1}, {"op": "set", "i": 0, "v": p[0]}, {"op": "len"}]
