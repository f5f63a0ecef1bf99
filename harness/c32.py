"""C32: variables hold only values of their type."""
import json
import random

from . import vals
from .core import observe

TYPES = [1, 2, 3, 4, 5, 10, 14, 15]
HOLDS = {1: ["bool"], 2: ["int0", "intneg"], 3: ["int0", "intbig"], 4: ["float"], 5: ["bytes"], 10: ["vec"], 14: ["dict"], 15: ["arr"]}
RAWS = ["bool", "int0", "intneg", "intbig", "inthuge", "intlow", "float", "bytes", "str", "bytearray", "none", "vec", "vec1", "vec3", "vecint1", "vecint2", "veclist",
        "dict", "dictkey", "dictval", "list", "arr", "arrmix", "arrraw", "arrtype", "arrlist", "arrtuple"]


def raw_value(rng, raw):
    """a Python value of the class, for the attribute `value`"""
    from dustmaker import variable as V

    f = rng.choice([0.0, -1.5, 2.25])
    return {
        "bool": rng.random() < 0.5, "int0": rng.choice([0, 1, 5, 2**31 - 1]), "intneg": rng.choice([-1, -(2**31), -77]), "intbig": rng.choice([2**31, 2**32 - 1]),
        "inthuge": rng.choice([2**32, 2**40, 2**64]), "intlow": rng.choice([-(2**31) - 1, -(2**33)]), "float": f, "bytes": rng.choice([b"", b"ab", b"\0"]), "str": "x",
        "bytearray": bytearray(b"q"), "none": None, "vec": (f, 1.0), "vec1": (f,), "vec3": (f, f, f), "vecint1": (1, f), "vecint2": (f, 1), "veclist": [f, f],
        "dict": {}, "dictkey": {rng.choice([1, b"k", None]): V.VariableInt(1)}, "dictval": {"k": rng.choice([1, None, "v", {}])}, "list": [1],
        "arr": (V.VariableInt, []), "arrmix": (V.VariableInt, [V.VariableInt(1), V.VariableUInt(1)]), "arrraw": (V.VariableInt, [1]), "arrtype": (rng.choice([int, None, 5, str]), []),
        "arrlist": [V.VariableInt, []], "arrtuple": (V.VariableInt, ()),
    }[raw]


def construct(rng, t, raw):
    from dustmaker import variable as V

    v = raw_value(rng, raw)
    cls = vals.vclass(t)
    if t == 15:
        if raw in ("arr", "arrmix", "arrraw", "arrtype"):
            return lambda: cls(v[0], v[1])
        return lambda: cls(v)
    return lambda: cls(v)


def outcome(fn):
    got = observe(fn)
    return "ok" if got[0] == "ok" else got[1][0] if got[0] == "exc" else "timeout"


class Node:
    """a variable with the tree it should be"""

    def __init__(self, t, kids, rng):
        from dustmaker import variable as V

        self.t, self.kids = t, kids
        if t == 14:
            self.var = V.VariableStruct({"k%d" % i: k.var for i, k in enumerate(kids)})
            self.raw = "dict"
        elif t == 15:
            et = vals.vclass(kids[0].t) if kids else V.VariableBool
            self.var = V.VariableArray(et, [k.var for k in kids])
            self.raw = "arr"
        else:
            self.raw = rng.choice(HOLDS[t])
            self.var = vals.vclass(t)(raw_value(rng, self.raw))
        self.good = self.var.value, self.raw
        self.bad = False

    def poke(self, rng):
        raw = rng.choice([r for r in RAWS if r not in HOLDS[self.t] and not (self.t in (2, 3) and r == "bool")])
        self.var.value = raw_value(rng, raw)
        self.raw, self.bad = raw, True

    def mend(self):
        self.var.value, self.raw = self.good
        self.bad = False

    def seen(self):
        return [] if self.bad else self.kids

    def tree(self):
        return {"t": self.t, "raw": self.raw, "kids": [k.tree() for k in self.seen()]}

    def pre(self):
        return [self] + [x for k in self.seen() for x in k.pre()]


def rand_tree(rng, depth, t=None):
    t = t or rng.choice(TYPES if depth else [1, 2, 3, 4, 5, 10])
    if t == 14:
        return Node(t, [rand_tree(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))] if depth else [], rng)
    if t == 15:
        et = rng.choice(TYPES if depth > 1 else [1, 2, 3, 4, 5, 10])
        return Node(t, [rand_tree(rng, depth - 1, et) for _ in range(rng.choice([0, 1, 2, 3]))] if depth else [], rng)
    return Node(t, [], rng)


def model_tree(rng):
    et = rng.choice([1, 2, 3, 4, 5, 10])
    n4, n6, n7 = Node(et, [], rng), Node(et, [], rng), Node(rng.choice([1, 2, 3, 4, 5, 10]), [], rng)
    n3, n5 = Node(14, [n4], rng), Node(14, [n6], rng)
    n2 = Node(15, [n3, n5], rng)
    n1 = Node(14, [n2, n7], rng)
    return [n1, n2, n3, n4, n5, n6, n7]


def check(root):
    from dustmaker import variable as V

    return {"op": "check", "tree": root.tree(), "outs": [outcome(n.var.assert_types) for n in root.pre()],
            "wrap": outcome(lambda: V.VariableStruct({"w": root.var})), "wrapa": outcome(lambda: V.VariableArray(type(root.var), [root.var]))}


def dispatch(c):
    rng = random.Random(c["seed"])
    if c["kind"] == "make":
        return [{"op": "make", "t": c["t"], "raw": c["raw"], "out": outcome(construct(rng, c["t"], c["raw"]))}]
    evs = []
    if c["kind"] == "hist":
        nodes = model_tree(rng)
        evs.append(check(nodes[0]))
        for o in c["hist"]:
            n = nodes[o["n"] - 1]
            if o["op"] == "poke":
                n.poke(rng)
            else:
                n.mend()
            evs.append(check(nodes[0]))
        return evs
    root = rand_tree(rng, rng.choice([1, 2, 3, 4]))
    evs.append(check(root))
    for _ in range(c["n"]):
        n = rng.choice(root.pre())
        if n.bad:
            n.mend()
        else:
            n.poke(rng)
        evs.append(check(root))
        if rng.random() < 0.5:
            for m in root.pre():
                if m.bad:
                    m.mend()
            evs.append(check(root))
    return evs


def run(ctx):
    ctx.rules.append("every variable type with every class of Python value (27 classes, several values each) given to its constructor; every history of 3 (thorough: 4) values put out of and back into their types in a nested struct/array (VarTypesMC), over random leaf types, and random trees up to depth 4; after every step assert_types of every variable in the tree and the construction of variables around it; non-trivial: distinct (type, value class, seed) or history")
    ctx.assumptions.append("bool values for integer variables, and constructing struct variables from something that is no mapping, are left open; element types that are not classes of variables are only used with the list they come with")
    ctx.model_check("VarTypesMC", ctx.scale("VarTypesMC.cfg", "VarTypesMCdeep.cfg"))
    ctx.expect_violation("VarTypesMC", "VarTypesMut.cfg", "a check that looks one level down only")
    rng = ctx.rng
    cases = []
    for t in TYPES:
        for raw in RAWS:
            if (t in (2, 3) and raw == "bool") or (t == 14 and raw not in ("dict", "dictkey", "dictval")):
                continue
            if t == 15 and raw not in ("arr", "arrmix", "arrraw", "arrtype"):
                continue
            for _ in range(4):
                cases.append({"kind": "make", "t": t, "raw": raw})
    hists = sorted({json.dumps(g["hist"]) for g in ctx.generate("VarTypesMC", ctx.scale("VarTypesGen.cfg", "VarTypesGenDeep.cfg"), count=False)})
    for h in hists:
        for _ in range(ctx.scale(4, 8)):
            cases.append({"kind": "hist", "hist": json.loads(h)})
    for _ in range(ctx.scale(1500, 15000)):
        cases.append({"kind": "rand", "n": rng.randint(1, 5)})
    for c in cases:
        c["seed"] = rng.getrandbits(30)
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(json.dumps(c, sort_keys=True))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("TypesTrace", [g for g in groups if g != ("crash",)])
    ctx.sample(cases[-1])
