"""Projection of JSON schemas and documents, and random ones (JsonDoc.tla)."""
from . import vals

LEAF = {"bool": 1, "int": 2, "uint": 3, "float": 4, "string": 5, "vec2": 10}


def proj_schema(s):
    if isinstance(s, str):
        return {"s": s if s in LEAF else "bad"}
    if isinstance(s, dict):
        return {"s": "dict", "m": [{"k": vals.key(k), "v": proj_schema(v)} for k, v in s.items()]}
    if isinstance(s, list) and not s:
        return {"s": "any"}
    if isinstance(s, list) and len(s) == 1:
        return {"s": "list", "e": proj_schema(s[0])}
    return {"s": "bad"}


def proj_doc(d):
    if isinstance(d, bool):
        return {"j": "b", "b": d}
    if isinstance(d, int):
        if not -(2**31) <= d < 2**32:
            return {"j": "bad"}
        return {"j": "n", "neg": d < 0, "n": vals.i32(d)}
    if isinstance(d, float):
        r = vals.fix(d)
        return {"j": "bad"} if r is None else {"j": "f", "i": r[0], "f": r[1]}
    if isinstance(d, str):
        return {"j": "s", "s": [ord(c) for c in d]}
    if isinstance(d, list):
        return {"j": "a", "a": [proj_doc(x) for x in d]}
    if isinstance(d, dict):
        return {"j": "o", "kv": [{"k": vals.key(k), "v": proj_doc(x)} for k, x in d.items()]}
    return {"j": "bad"}


def to_schema(s):
    if s["s"] == "dict":
        return {vals.unkey(e["k"]): to_schema(e["v"]) for e in s["m"]}
    if s["s"] == "list":
        return [to_schema(s["e"])]
    if s["s"] == "any":
        return []
    return s["s"]


def to_doc(d):
    j = d["j"]
    if j == "b":
        return d["b"]
    if j == "n":
        return d["n"] if d["neg"] else vals.u32(d["n"])
    if j == "f":
        return vals.unfix(d["i"], d["f"])
    if j == "s":
        return "".join(map(chr, d["s"]))
    if j == "a":
        return [to_doc(x) for x in d["a"]]
    return {vals.unkey(e["k"]): to_doc(e["v"]) for e in d["kv"]}


def rand_schema(rng, depth, root=False):
    r = rng.random()
    if root or (depth > 0 and r < 0.3):
        m, seen = [], set()
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            k = vals.rand_key(rng)
            if tuple(k) not in seen:
                seen.add(tuple(k))
                m.append({"k": k, "v": rand_schema(rng, depth - 1)})
        return {"s": "dict", "m": m}
    if depth > 0 and r < 0.65:
        return {"s": "list", "e": rand_schema(rng, depth - 1)}
    return {"s": rng.choice(list(LEAF))}


def rand_value(rng, s):
    """a variable described by the schema"""
    if s["s"] == "dict":
        kv = [{"k": e["k"], "v": rand_value(rng, e["v"])} for e in s["m"] if rng.random() < 0.8]
        rng.shuffle(kv)
        return {"t": 14, "kv": kv}
    if s["s"] == "list":
        et = {"dict": 14, "list": 15}.get(s["e"]["s"]) or LEAF[s["e"]["s"]]
        return {"t": 15, "et": et, "a": [rand_value(rng, s["e"]) for _ in range(rng.choice([0, 0, 1, 2, 3]))]}
    return vals.rand_leaf(rng, LEAF[s["s"]])


def rand_clash(rng, depth=3, t=None):
    """few keys and mostly empty parts, so that elements of one array often agree and often do not"""
    t = t or rng.choice([2, 2, 5, 14, 14, 15, 15] if depth > 0 else [2, 5, 14, 15])
    if t == 14:
        ks = rng.sample([97, 98], rng.choice([0, 1, 1, 2]) if depth > 0 else 0)
        return {"t": 14, "kv": [{"k": [k], "v": rand_clash(rng, depth - 1)} for k in ks]}
    if t == 15:
        et = rng.choice([2, 5, 14, 14, 15, 15])
        n = rng.choice([0, 1, 2, 2, 3]) if depth > 0 else 0
        return {"t": 15, "et": et, "a": [rand_clash(rng, depth - 1, et) for _ in range(n)]}
    return {"t": 2, "n": rng.choice([0, 1])} if t == 2 else {"t": 5, "s": rng.choice([[], [120]])}


def doc_of(v):
    t = v["t"]
    if t == 1:
        return {"j": "b", "b": v["b"]}
    if t in (2, 3):
        return {"j": "n", "neg": t == 2 and v["n"] < 0, "n": v["n"]}
    if t == 4:
        return {"j": "f", "i": v["i"], "f": v["f"]}
    if t == 5:
        return {"j": "s", "s": v["s"]}
    if t == 10:
        return {"j": "a", "a": [{"j": "f", "i": v["xi"], "f": v["xf"]}, {"j": "f", "i": v["yi"], "f": v["yf"]}]}
    if t == 14:
        return {"j": "o", "kv": [{"k": e["k"], "v": doc_of(e["v"])} for e in v["kv"]]}
    return {"j": "a", "a": [doc_of(x) for x in v["a"]]}
