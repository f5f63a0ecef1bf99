"""C33: results depend on the arguments only."""
import copy
import hashlib
import io
import json
import os
import pickle
import random
import signal
import subprocess
import sys

from . import c22
from . import c24
from . import levels as lv
from . import replays as rp
from . import vals
from . import varcases
from .core import observe


def dig(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=repr).encode()).hexdigest()[:16]


# ------------------------------------------------------------- contents
def near(c):
    """bring a level content near the origin, where every operation applies"""
    cells = {}
    for k in ("tiles", "btiles"):
        cells = {}
        for t in c[k]:
            t = dict(t, x=t["x"] % 5 - 2, y=t["y"] % 5 - 2)
            cells[(t["l"], t["x"], t["y"])] = t
        c[k] = list(cells.values())
    for k in ("props", "bprops"):
        c[k] = [dict(p, px=p["px"] % 16000 // 8 * 8 - 8000 + p["rot"] % 8, py=p["py"] % 16000 // 8 * 8 - 8000 + p["set"] % 8) for p in c[k]]
    c["ents"] = [dict(e, xi=e["xi"] % 2000 - 1000, yi=e["yi"] % 2000 - 1000, xf=e["xf"] // 16 * 16, yf=e["yf"] // 16 * 16) for e in c["ents"]]
    for t in c["tiles"] + c["btiles"]:
        t["e"] = [[max(-89, min(89, v)) if f in (4, 5, 10, 11) else v for f, v in enumerate(e)] for e in t["e"]]
    return lv.canon(c)


def rand_level(rng, base=None):
    if base is not None:
        c = near(lv.perturb(rng, base))
        if rng.random() < 0.5:  # the same tiles in other colours
            c["tiles"] = [dict(t, sp=(t["sp"] + rng.choice([0, 0, 1])) % 16) for t in base["tiles"]]
        return c
    c = lv.rand_content(rng, rng.choice([1, 2, 4]))
    for k, n in (("tiles", rng.randrange(8)), ("btiles", rng.choice([0, 0, 2]))):
        looks = [lv.rand_tile(rng, 19, 0, 0)]
        looks.append(dict(looks[0], **{rng.choice(["sp", "sp", "st", "ss"]): rng.randrange(8)}))
        for _ in range(n + rng.choice([0, 6])):
            t = dict(lv.rand_tile(rng, rng.choice([19, 19, 17]), rng.randint(-2, 2), rng.randint(-2, 2)))
            if rng.random() < 0.7:
                look = rng.choice(looks)
                t.update({f: look[f] for f in ("ss", "sp", "st")}, sh=rng.choice([0, t["sh"]]))
            c[k].append(t)
    return near(c)


def patch(rng, base=None):
    """touching tiles of two looks; or the same tiles with one field of some changed"""
    if base is None:
        c = lv.rand_content(rng, 1)
        look = lv.rand_tile(rng, 19, 0, 0)
        f = rng.choice(["sp", "st", "ss"])
        looks = [look, dict(look, **{f: (look[f] + 1) % 8})]
        c["tiles"] = [dict(rng.choice(looks), x=x, y=y, sh=rng.choice([0, 0, 0, look["sh"]]), e=lv.rand_tile(rng, 19, 0, 0)["e"]) for x in range(3) for y in range(2) if rng.random() < 0.9]
        c["btiles"], c["props"], c["bprops"], c["ents"] = [], [], [], c["props"][:0]
        return near(c)
    c = copy.deepcopy(base)
    f = rng.choice(["sp", "sp", "st", "ss", "sh"])
    for t in c["tiles"]:
        if rng.random() < 0.4:
            t[f] = rng.choice([u[f] for u in c["tiles"]] + [(t[f] + 1) % 8])
    return near(c)


def rand_tile(rng, base=None):
    if base is not None:
        return rng.choice(c24.tile_variants(rng, base)[:-4])
    t = {k: v for k, v in lv.rand_tile(rng, 0, 0, 0).items() if k not in "lxy"}
    t["e"] = [[max(-89, min(89, v)) if f in (4, 5, 10, 11) else v for f, v in enumerate(e)] for e in t["e"]]
    return t


def rand_replay(rng, base=None):
    return rp.rand_replay(rng, ver=base["ver"] if base is not None and rng.random() < 0.7 else None, small=True)


def rand_var(rng, base=None):
    if base is not None:
        return c24.mutate(rng, base)
    return vals.rand_val(rng, rng.choice([1, 2, 3]), rng.choice([14, 14, 15, None]))


def rand_save(rng, base=None):
    scores = [c22.entry(rng, c22.rand_name(rng)) for _ in range(rng.choice([0, 1, 3, 6]))]
    if base is not None and rng.random() < 0.6:
        scores = base["scores"] + scores[:1]
    return {"scores": scores, "red": rng.choice([None, 0, 1, 7])}


# ------------------------------------------------------------- kinds of objects
def build_save(c):
    from dustmaker import variable as V

    stats = {"score": V.VariableArray(V.VariableStruct, [c22.build_score(e) for e in c["scores"]])}
    if c["red"] is not None:
        stats["red_used"] = V.VariableInt(c["red"])
    stats["citybook"] = V.VariableStruct({"a": V.VariableInt(len(c["scores"]))})
    return stats


def morph_save(obj, c, rng):
    want = build_save(c)
    if "score" in obj and rng.random() < 0.7:
        obj["score"].value[1][:] = want.pop("score").value[1]
    for k in list(obj):
        if k != "score" and k not in want:
            del obj[k]
    obj.update(want)
    return obj


def morph_level(obj, c, rng):
    lv.morph(obj, c, rng)
    return obj


def morph_tile(obj, c, rng):
    lv.morph_tile(obj, lv.build_tile(c), rng)
    return obj


def morph_replay(obj, c, rng):
    rp.morph(obj, c, rng)
    return obj


KINDS = {
    "level": (rand_level, lv.build, morph_level, lv.content),
    "tile": (rand_tile, lv.build_tile, morph_tile, lv.proj_tile),
    "replay": (rand_replay, rp.build, morph_replay, lambda r: sorted_ents(rp.proj(r))),
    "var": (rand_var, vals.build, varcases.morph, vals.proj),
    "save": (rand_save, build_save, morph_save, vals.projmap),
}


def sorted_ents(p):
    return {**p, "ents": sorted(p["ents"], key=lambda e: e["uid"])}


def write_with(method, obj):
    from dustmaker import DFWriter

    with DFWriter(io.BytesIO()) as w:
        getattr(w, method)(obj)
        w.flush()
        return w.data.getvalue()


def save_level(level):
    from dustmaker import write_level

    return write_level(level)


def reread_level(level):
    from dustmaker import read_level

    return lv.content(read_level(save_level(level)))


def reread_replay(rep):
    from dustmaker import DFReader

    with DFReader(io.BytesIO(write_with("write_replay", rep))) as r:
        return sorted_ents(rp.proj(r.read_replay()))


def tx(name):
    from dustmaker.transform import TxMatrix

    return {"h": TxMatrix.HFLIP, "r": TxMatrix.ROTATE[1], "v": TxMatrix.VFLIP, "m": TxMatrix.IDENTITY.translate(96, -48)}[name]


def json_of(var):
    from dustmaker.cmd.variables import json_to_variables, variables_to_json

    schema, jv = variables_to_json(var)
    return [schema, jv, vals.proj(json_to_variables(schema, jv))]


def struct(d):
    from dustmaker.variable import VariableStruct

    return VariableStruct(d)


def migrated(stats):
    from dustmaker.cmd.save_convert import migrate_stats

    return sorted(vals.projmap(migrate_stats(stats))["kv"], key=lambda e: e["k"])


#: kind -> name -> (only looks?, function of the object)
OPS = {
    "level": {
        "write": (True, reread_level),
        "json": (True, lambda o: json_of(struct(o.variables))),
        "max": (True, lambda o: 0 if o.calculate_max_id(reset=True) else 1),
        "vis": (False, lambda o: o.calculate_edge_visibility()),
        "caps": (False, lambda o: o.calculate_edge_caps()),
        "hflip": (False, lambda o: o.flip_horizontal()),
        "rot": (False, lambda o: o.rotate()),
        "move": (False, lambda o: o.translate(96, -48)),
        "up": (False, lambda o: o.upscale(2)),
    },
    "tile": {
        "up": (True, lambda o: sorted([dx, dy, lv.proj_tile(t)] for dx, dy, t in o.upscale(3))),
        "ask": (True, lambda o: [o.sprite_path, o.has_filth(), o.is_dustblock(), [int(x) for x in o.get_sprite_tuple()]]),
        "hash": (True, lambda o: hash(o) == hash(lv.build_tile(lv.proj_tile(o))) and o == lv.build_tile(lv.proj_tile(o))),
        "hflip": (False, lambda o: o.transform(tx("h"))),
        "rot": (False, lambda o: o.transform(tx("r"))),
    },
    "replay": {"write": (True, reread_replay), "ask": (True, lambda o: [rp.gets(o), rp.looks(o)])},
    "var": {
        "write": (True, lambda o: list(write_with("write_variable", o))),
        "json": (True, json_of),
        "hash": (True, lambda o: hash(o) == hash(vals.build(vals.proj(o))) and o == vals.build(vals.proj(o))),
        "types": (True, lambda o: o.assert_types()),
    },
    "save": {"convert": (True, migrated)},
}
#: operations on a level that are given another object of the history
PAIRS = {"merge": ("level", "level"), "equal": ("tile", "tile"), "equalv": ("var", "var")}


def evaluate(kind, name, obj, other=None):
    """-> (digest of the outcome, did it return?)"""
    if name in PAIRS:
        if name == "merge":
            got = observe(lambda: obj.merge(other, remap_ids=False))
        else:
            got = observe(lambda: [obj == other, other == obj, obj != other])
        look = name != "merge"
    else:
        look, fn = OPS[kind][name]
        got = observe(fn, obj)
    if got[0] != "ok":
        return dig(["exc", got[1] if isinstance(got[1], str) else type(got[1]).__name__]), False, look
    return dig(got[1] if look else KINDS[kind][3](obj)), True, look


def apart(fn, *args):
    """fn(*args) in a child process of this (otherwise idle) one"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            signal.alarm(120)
            os.close(r)
            with os.fdopen(w, "wb") as f:
                try:
                    pickle.dump(("ok", fn(*args)), f)
                except Exception as exc:  # pylint: disable=broad-except
                    pickle.dump(("exc", "%s: %s" % (type(exc).__name__, exc)), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise ValueError("no answer from the code under test")
    kind, val = pickle.loads(data)
    if kind != "ok":
        raise ValueError(val)
    return val


def fresh_eval(kind, name, c, other):
    return evaluate(kind, name, KINDS[kind][1](c), KINDS[kind][1](other) if other is not None else None)[0]


def history(c):
    """the history in one process; events without the fresh results, and what these need"""
    rng = random.Random(c["seed"])
    kinds, cons = c["kinds"], c["cons"]
    objs = [KINDS[k][1](copy.deepcopy(cs[0])) for k, cs in zip(kinds, cons)]
    now = [cs[0] for cs in cons]  # abstract content, None once only the object knows it
    evs = []

    def content(i):
        return KINDS[kinds[i]][3](objs[i])

    for op in c["ops"]:
        i = op["o"]
        kind = kinds[i]
        if op["op"] == "set":
            now[i] = cons[i][op["c"]]
            objs[i] = KINDS[kind][2](objs[i], copy.deepcopy(now[i]), rng)
            continue
        name = op["f"]
        j = op.get("with")
        if j is not None and (j == i or kinds[j] != kind):
            continue
        if kind == "save":
            arg, arg2 = now[i], None
        else:
            arg, arg2 = content(i), content(j) if j is not None else None
        before = dig(content(i))
        others = [dig(content(k)) for k in range(len(objs)) if k != i]
        out, done, look = evaluate(kind, name, objs[i], objs[j] if j is not None else None)
        e = {"op": "eval", "what": kind + "." + name, "first": not evs, "key": dig([kind, name, arg, arg2]), "out": out, "fresh": "", "look": look, "before": before, "after": dig(content(i)),
             "rest": dig(others), "restafter": dig([dig(content(k)) for k in range(len(objs)) if k != i])}
        evs.append((e, (kind, name, copy.deepcopy(arg), copy.deepcopy(arg2))))
        if not done and not look:  # may have stopped half way
            now[i] = cons[i][0]
            objs[i] = KINDS[kind][1](copy.deepcopy(now[i]))
    return evs


def do_hist(c):
    evs = apart(history, c)
    memo = {}
    for e, need in evs:
        if e["key"] not in memo:
            memo[e["key"]] = apart(fresh_eval, *need)
        e["fresh"] = memo[e["key"]]
    return [e for e, _ in evs]


# ------------------------------------------------------------- bytes
def raw_bytes(kind, obj):
    if kind == "level":
        return save_level(obj)
    if kind == "replay":
        return write_with("write_replay", obj)
    return write_with("write_variable", obj if kind == "var" else struct(obj))


def sha(got):
    return hashlib.sha1(got[1]).hexdigest() if got[0] == "ok" else dig(["exc", got[1] if isinstance(got[1], str) else type(got[1]).__name__])


def first_bytes(kind, c):
    obj = KINDS[kind][1](c)
    return [sha(observe(raw_bytes, kind, obj)), sha(observe(raw_bytes, kind, obj))]


def later_bytes(kind, c, before):
    for k, cc in before:
        o = KINDS[k][1](cc)
        for name in OPS[k]:
            evaluate(k, name, o)
    return sha(observe(raw_bytes, kind, KINDS[kind][1](c)))


def do_bytes(c):
    first, again = apart(first_bytes, c["kind"], c["c"])
    return [{"op": "bytes", "first": True, "out": first, "again": again, "later": apart(later_bytes, c["kind"], c["c"], c["before"]), "other": c["other"] or first}]


def dispatch(c):
    return do_hist(c) if "ops" in c else do_bytes(c)


def elsewhere(ctx, cases):
    """the digests of the written objects from an interpreter with another hash seed"""
    env = dict(os.environ, PYTHONHASHSEED=str(ctx.rng.randrange(1, 10**6)), PYTHONDONTWRITEBYTECODE="1")
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get("VERIF_REPO", "/repo")
    code = "import sys; sys.path[:0] = [%r, %r]; from harness import c33; c33.serve()" % (repo, verif)
    r = subprocess.run([sys.executable, "-P", "-c", code], input=json.dumps([[c["kind"], c["c"]] for c in cases]), capture_output=True, text=True, env=env, timeout=600, check=False)
    try:
        got = json.loads(r.stdout.splitlines()[-1])
    except (ValueError, IndexError):
        return [dig(["no answer", r.stderr[-300:]])] * len(cases)
    return got


def serve():
    sys.setrecursionlimit(20000)
    print(json.dumps([first_bytes(kind, c)[0] for kind, c in json.load(sys.stdin)]))


# ------------------------------------------------------------- run
def contents(rng, kind):
    gen = KINDS[kind][0]
    x = gen(rng)
    y = gen(rng, x)
    return [x, y, gen(rng, x), gen(rng, y)]


def case(rng, ops, kinds):
    cons = [contents(rng, k) for k in kinds]
    # the same contents for both objects of a kind, half of the time
    if len(set(kinds)) < len(kinds) and rng.random() < 0.5:
        cons = [cons[kinds.index(k)] for k in kinds]
    return {"seed": rng.getrandbits(30), "kinds": kinds, "cons": cons, "ops": ops}


def pick(rng, kinds, i, look):
    kind = kinds[i]
    names = [n for n, v in OPS[kind].items() if v[0] == look] or list(OPS[kind])
    if rng.random() < 0.15:
        pairs = [n for n, ks in PAIRS.items() if ks[0] == kind and (n == "merge") != look]
        js = [j for j in range(len(kinds)) if j != i and kinds[j] == kind]
        if pairs and js:
            return {"op": "eval", "o": i, "f": pairs[0], "with": rng.choice(js)}
    return {"op": "eval", "o": i, "f": rng.choice(names)}


def run(ctx):
    ctx.rules.append("all histories of four steps (evaluating and changing two objects) of FuncMC on levels, tiles, replays, variables and saves, and random ones of up to 14 steps on three objects, blocks of touching tiles with single fields changed between computations of edges, each result compared with a process that did nothing else; files written twice, after other work and under another hash seed; non-trivial: distinct histories with a change before the last evaluation")
    ctx.assumptions.append("the order in which ids, records and keys were inserted counts as content where the format shows it; the number the next automatic id starts from is judged by C12")
    ctx.model_check("FuncMC", ctx.scale("FuncMC.cfg", "FuncMCdeep.cfg"))
    ctx.expect_violation("FuncMC", "FuncMut.cfg", "results remembered per object and part of its content")
    rng = ctx.rng
    cases = []
    weights = ["level"] * 4 + ["tile"] * 3 + ["var"] * 3 + ["replay"] * 2 + ["save"]
    gen = ctx.generate("FuncMC", "FuncGen.cfg", count=False)
    share = ctx.scale(0.3, 1.0)
    for g in gen:
        if rng.random() > share:
            continue
        k = rng.choice(weights)
        kinds = [k, k if rng.random() < 0.75 else rng.choice(weights)]
        names = {}
        ops = []
        for o in g["ops"]:
            i = o["o"] - 1
            if o["op"] == "set":
                ops.append({"op": "set", "o": i, "c": 2 * o["c"][0] + o["c"][1]})
            else:
                key = (kinds[i], o["f"])
                if key not in names or rng.random() < 0.2:
                    names[key] = pick(rng, kinds, i, o["f"] == "look")
                nm = names[key]
                ops.append({**nm, "o": i, **({"with": 1 - i} if "with" in nm else {})})
        cases.append(case(rng, ops, kinds))
    for _ in range(ctx.scale(300, 4000)):
        k = rng.choice(weights)
        kinds = [k] + [k if rng.random() < 0.5 else rng.choice(weights) for _ in range(rng.choice([0, 1, 2]))]
        ops = []
        for _ in range(rng.choice([4, 8, 14])):
            i = rng.randrange(len(kinds))
            ops.append({"op": "set", "o": i, "c": rng.randrange(4)} if rng.random() < 0.4 else pick(rng, kinds, i, rng.random() < 0.65))
        cases.append(case(rng, ops, kinds))
    for _ in range(ctx.scale(120, 1500)):
        cons = [patch(rng)]
        cons += [patch(rng, rng.choice(cons)) for _ in range(3)]
        ops = []
        for _ in range(rng.choice([3, 5, 8])):
            i = rng.randrange(2)
            ops += [{"op": "set", "o": i, "c": rng.randrange(4)}, {"op": "eval", "o": i, "f": rng.choice(["vis", "vis", "vis", "caps", "rot", "write", "up"])}]
        cases.append({"seed": rng.getrandbits(30), "kinds": ["level", "level"], "cons": [cons, cons], "ops": ops})
    raw = []
    for _ in range(ctx.scale(200, 2000)):
        kind = rng.choice(weights[:4] + ["var", "var", "replay", "save"])
        raw.append({"kind": kind, "c": KINDS[kind][0](rng), "before": [(k, KINDS[k][0](rng)) for k in rng.sample(sorted(KINDS), 2)], "other": ""})
    for c, d in zip(raw, elsewhere(ctx, raw)):
        c["other"] = d
    cases += raw
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(dig(c))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    good = [g for g in groups if g != ("crash",) and g]
    ctx.judge("FuncTrace", good)
    if good:
        ctx.sample(good[len(good) // 2])
