"""C14: transformation matrices form the affine group they describe."""
import itertools

from .core import observe
from .levels import oc

BAD = -(2**31)


def num(x, den):
    if isinstance(x, bool) or not isinstance(x, (int, float)) or x != x or abs(x) > 1e6:
        return BAD
    y = x * den
    return int(y) if y == int(y) else BAD


def entries(m, den):
    """the six entries, or a marker when it is not an affine matrix"""
    try:
        if tuple(m[2]) != (0, 0, 1) or len(m) != 3:
            return [BAD] * 6
        return [num(m[i][j], den) for i in range(2) for j in range(3)]
    except (TypeError, IndexError):
        return [BAD] * 6


def mk(q, rng):
    from dustmaker.transform import TxMatrix

    v = [x // 4 if x % 4 == 0 and rng.random() < 0.7 else x / 4 for x in q]
    rows = (v[:3], v[3:], (0, 0, 1))
    return TxMatrix(rows if rng.random() < 0.5 else [list(r) for r in rows])


def do_pair(c):
    import random

    from dustmaker.transform import TxMatrix

    rng = random.Random(c["seed"])
    p, q = mk(c["p"], rng), mk(c["q"], rng)
    v = [x / 4 for x in c["v"]]
    k = c["k"] // 4 if c["k"] % 4 == 0 and rng.random() < 0.6 else c["k"] / 4

    def pt(t, den):
        return [num(t[0], den), num(t[1], den)] if isinstance(t, tuple) and len(t) == 2 else [BAD, BAD]

    def go():
        tr = p.translate(*v)
        return {
            "prod": entries(p * q, 16), "qv": pt(q.sample(*v), 16), "qlin": pt(q.sample(*v, with_offset=False), 16),
            "pqv": pt((p * q).sample(*v), 64), "pofqv": pt(p.sample(*q.sample(*v)), 64),
            "tr": entries(tr, 4), "trmul": entries(TxMatrix.IDENTITY.translate(*v) * p, 16),
            "sc": entries(p * k, 16), "rsc": entries(k * p, 16),
            "pid": entries(p * TxMatrix.IDENTITY, 16), "idp": entries(TxMatrix.IDENTITY * p, 16),
            "det": num(p.determinant, 16), "flipped": bool(p.flipped), "scale": round(p.scale * 256),
            "p2": entries(p, 4), "q2": entries(q, 4),
        }

    res = observe(go)
    e = {"op": "pair", "out": oc(res), "p": c["p"], "q": c["q"], "v": c["v"], "k": c["k"]}
    if res[0] == "ok":
        e.update(res[1])
    return [e]


def do_small(c):
    """linear maps in units of 2^-k, far from one"""
    from dustmaker.transform import TxMatrix

    d = 2.0 ** c["d"]

    def mat(q):
        return TxMatrix(((q[0] / d, q[1] / d, 0), (q[3] / d, q[4] / d, 0), (0, 0, 1)))

    def go():
        p, q = mat(c["p"]), mat(c["q"])
        return {"prod": entries(p * q, d * d), "qlin": [num(x, d) for x in q.sample(*c["v"])], "det": num(p.determinant, d * d), "flipped": bool(p.flipped),
                "scale": round(p.scale * d * 16)}

    res = observe(go)
    e = {"op": "small", "out": oc(res), "p": c["p"], "q": c["q"], "v": c["v"]}
    if res[0] == "ok":
        e.update(res[1])
    return [e]


def do_word(c):
    from dustmaker.transform import TxMatrix

    gens = {"H": lambda: TxMatrix.HFLIP, "V": lambda: TxMatrix.VFLIP, "0": lambda: TxMatrix.ROTATE[0], "1": lambda: TxMatrix.ROTATE[1],
            "2": lambda: TxMatrix.ROTATE[2], "3": lambda: TxMatrix.ROTATE[3]}

    def go():
        m = TxMatrix.IDENTITY
        for g in c["word"]:
            m = gens[g]() * m
        return m

    res = observe(go)
    return [{"op": "word", "word": list(c["word"]), "out": oc(res), "m4": entries(res[1], 4) if res[0] == "ok" else []}]


def do_const(_c):
    from dustmaker.transform import TxMatrix

    res = observe(lambda: {"id4": entries(TxMatrix.IDENTITY, 4), "h4": entries(TxMatrix.HFLIP, 4), "v4": entries(TxMatrix.VFLIP, 4),
                           "rot4": [entries(m, 4) for m in TxMatrix.ROTATE]})
    e = {"op": "const", "out": oc(res)}
    if res[0] == "ok":
        e.update(res[1])
    return [e]


def dispatch(c):
    return {"pair": do_pair, "word": do_word, "const": do_const, "small": do_small}[c["op"]](c)


def run(ctx):
    ctx.rules.append("random pairs of matrices (integers and quarters, int and float entries), points and scalars; linear maps scaled from 2^4 down to 2^-26; every word of length up to 4 (5) in the generators; non-trivial: distinct case")
    ctx.model_check("TxAlgMC", ctx.scale("TxAlgMC.cfg", "TxAlgMCdeep.cfg"))
    ctx.expect_violation("TxAlgMC", "TxAlgMut.cfg", "vertical offset of a product taken from the horizontal one")
    rng = ctx.rng

    def mat():
        if rng.random() < 0.5:
            return [rng.randint(-40, 40) for _ in range(6)]
        m = [4 * rng.choice([-1, 0, 1, 2]) for _ in range(6)]
        m[2], m[5] = rng.choice([0, 4, -12, rng.randint(-2000, 2000)]), rng.choice([0, rng.randint(-2000, 2000)])
        return m

    cases = [{"op": "const"}]
    for n in range(ctx.scale(5, 6)):
        cases += [{"op": "word", "word": "".join(w)} for w in itertools.product("HV0123", repeat=n)]
    for i in range(ctx.scale(6000, 60000)):
        cases.append({"op": "pair", "p": mat(), "q": mat(), "v": [rng.randint(-400, 400), rng.choice([0, rng.randint(-400, 400)])],
                      "k": rng.choice([0, 4, 8, 12, -4, 20, 2, 6, -3]), "seed": i})
    for i in range(ctx.scale(1500, 15000)):
        flat = lambda: [0 if j % 3 == 2 else rng.choice([0, 1, -1, rng.randint(-40, 40)]) for j in range(6)]
        cases.append({"op": "small", "p": flat(), "q": flat(), "v": [rng.randint(-400, 400), rng.randint(-400, 400)], "d": rng.choice([-4, 0, 3, 8, 12, 20, 26])})
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(repr(c))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("TxTrace", [g for g in groups if g != ("crash",)])
    ctx.sample(cases[-1])
