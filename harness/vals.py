"""Projection of dustmaker variables onto the abstract values of VarCodec.tla
(and back), plus random generation of abstract values."""
import math

T = {"bool": 1, "int": 2, "uint": 3, "float": 4, "str": 5, "vec2": 10, "struct": 14, "array": 15}
NAMES = {1: "VariableBool", 2: "VariableInt", 3: "VariableUInt", 4: "VariableFloat", 5: "VariableString",
         10: "VariableVec2", 14: "VariableStruct", 15: "VariableArray"}
CODES = {v: k for k, v in NAMES.items()}
ALPHABET = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz{"
F31 = 1 << 31


def i32(u):
    """unsigned 32 -> signed pattern"""
    u &= 0xFFFFFFFF
    return u - (1 << 32) if u >= (1 << 31) else u


def u32(i):
    return i & 0xFFFFFFFF


def fix(x):
    """float -> (floor, 31-bit fraction) or None when not exact / out of range"""
    if not isinstance(x, float) or not math.isfinite(x):
        return None
    i = math.floor(x)
    f = (x - i) * F31
    if f != int(f) or not -(2**31) < i < 2**31:
        return None
    return i, int(f)


def unfix(i, f):
    return i + f / F31


def key(k):
    return [ord(c) for c in k] if isinstance(k, str) else [-1]


def unkey(codes):
    return "".join(map(chr, codes))


def bad(why):
    return {"t": -1, "why": why}


def proj(var):
    """Abstract value of a dustmaker variable (total)."""
    name = type(var).__name__
    t = CODES.get(name)
    if t is None:
        return bad("class " + name)
    val = var.value
    if t == 1:
        return {"t": 1, "b": val} if isinstance(val, bool) else bad("bool")
    if t in (2, 3):
        if not isinstance(val, int) or isinstance(val, bool):
            return bad("int type")
        lo, hi = ((-(2**31), 2**31) if t == 2 else (0, 2**32))
        if not lo <= val < hi:
            return bad("int range")
        return {"t": t, "n": i32(val)}
    if t == 4:
        r = fix(val)
        return bad("float") if r is None else {"t": 4, "i": r[0], "f": r[1]}
    if t == 5:
        return {"t": 5, "s": list(val)} if isinstance(val, bytes) else bad("bytes")
    if t == 10:
        if not isinstance(val, tuple) or len(val) != 2:
            return bad("vec2")
        a, b = fix(val[0]), fix(val[1])
        if a is None or b is None:
            return bad("vec2 comp")
        return {"t": 10, "xi": a[0], "xf": a[1], "yi": b[0], "yf": b[1]}
    if t == 14:
        if not isinstance(val, dict):
            return bad("struct")
        return {"t": 14, "kv": [{"k": key(k), "v": proj(v)} for k, v in val.items()]}
    if not isinstance(val, tuple) or len(val) != 2 or not isinstance(val[1], list):
        return bad("array")
    et = CODES.get(getattr(val[0], "__name__", ""), -1)
    return {"t": 15, "et": et, "a": [proj(v) for v in val[1]]}


def projmap(d):
    return {"t": 14, "kv": [{"k": key(k), "v": proj(v)} for k, v in d.items()]}


def build(v):
    """dustmaker variable of an abstract value"""
    from dustmaker import variable as V

    t = v["t"]
    if t == 1:
        return V.VariableBool(v["b"])
    if t == 2:
        return V.VariableInt(v["n"])
    if t == 3:
        return V.VariableUInt(u32(v["n"]))
    if t == 4:
        return V.VariableFloat(unfix(v["i"], v["f"]))
    if t == 5:
        return V.VariableString(bytes(v["s"]))
    if t == 10:
        return V.VariableVec2((unfix(v["xi"], v["xf"]), unfix(v["yi"], v["yf"])))
    if t == 14:
        return V.VariableStruct({unkey(e["k"]): build(e["v"]) for e in v["kv"]})
    return V.VariableArray(getattr(V, NAMES[v["et"]]), [build(x) for x in v["a"]])


def vclass(t):
    from dustmaker import variable as V

    return getattr(V, NAMES[t])


def vtype(t):
    from dustmaker.variable import VariableType

    return VariableType(t)


def rand_fix(rng):
    r = rng.random()
    if r < 0.25:
        return rng.choice([(0, 0), (-1, 0), (-1, 1 << 30), (1, 1), (-1, F31 - 1), (0, F31 - 1), (0, 1), (-2, 1), (48, 0)])
    bits = rng.choice([1, 8, 20, 31])
    i = rng.choice([1, -1]) * rng.getrandbits(bits)
    keep = max(0, 52 - max(1, abs(i).bit_length()))
    fb = min(31, keep)
    f = rng.getrandbits(fb) << (31 - fb) if fb else 0
    if r < 0.5:
        f = rng.choice([0, 1 << 30, 3 << 29])
    return i, f


def rand_key(rng):
    r = rng.random()
    last = rng.__dict__.setdefault("keys", [])
    if last and r > 0.8:  # much like a name met before
        k = list(rng.choice(last))
        p = rng.randrange(len(k))
        what = rng.randrange(4)
        if what < 2:
            k[p] = ord(rng.choice(ALPHABET))
        elif what == 2 and len(k) > 1:
            q = rng.randrange(len(k))
            k[p], k[q] = k[q], k[p]
        elif len(k) < 63:
            k.insert(p, ord(rng.choice(ALPHABET)))
        return k
    if r < 0.05:
        n = 63
    elif r < 0.1:
        n = 0
    else:
        n = rng.choice([1, 2, 5, 9, 15])
    k = [ord(rng.choice(ALPHABET)) for _ in range(n)]
    if n:
        last.append(k)
        del last[:-4]
    return k


def rand_leaf(rng, t=None):
    t = t or rng.choice([1, 2, 3, 4, 5, 5, 10])
    if t == 1:
        return {"t": 1, "b": rng.random() < 0.5}
    if t in (2, 3):
        return {"t": t, "n": i32(rng.choice([0, 1, -1, 2**31 - 1, -(2**31), rng.getrandbits(32), rng.getrandbits(8)]))}
    if t == 4:
        i, f = rand_fix(rng)
        return {"t": 4, "i": i, "f": f}
    if t == 5:
        n = rng.choice([0, 0, 1, 3, 8, 40])
        return {"t": 5, "s": [rng.choice([0, 255, 128, 92, 34, 10, rng.randrange(256)]) for _ in range(n)]}
    (a, b), (c, d) = rand_fix(rng), rand_fix(rng)
    return {"t": 10, "xi": a, "xf": b, "yi": c, "yf": d}


def rand_val(rng, depth=3, t=None):
    if t is None:
        t = rng.choice([1, 2, 3, 4, 5, 10, 14, 14, 15, 15]) if depth > 0 else rng.choice([1, 2, 3, 4, 5, 10])
    if t == 14:
        kv, seen = [], set()
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5]) if depth > 0 else 0):
            k = rand_key(rng)
            if tuple(k) in seen:
                continue
            seen.add(tuple(k))
            kv.append({"k": k, "v": rand_val(rng, depth - 1)})
        return {"t": 14, "kv": kv}
    if t == 15:
        et = rng.choice([1, 2, 3, 4, 5, 10, 14, 15])
        n = rng.choice([0, 1, 2, 4]) if depth > 0 else 0
        return {"t": 15, "et": et, "a": [rand_val(rng, depth - 1, et) for _ in range(n)]}
    return rand_leaf(rng, t)
