"""C22: save conversion keeps every score and counts keys correctly."""
import json
import random

from . import vals
from .cli import Scratch
from .core import observe

LEVELS = """downhill shadedgrove dahlia fields momentum fireflyforest tunnels momentum2 suntemple ascent summit grasscave den autumnforest garden
hyperdifficult atrium secretpassage alcoves mezzanine cave cliffsidecaves library courtyard precarious treasureroom arena ramparts moontemple
observatory parapets brimstone vacantlot sprawl development abandoned park boxes chemworld factory tunnel basement scaffold cityrun clocktower
concretetemple alley hideout control ferrofluid titan satellite vat venom security mary wiringfixed containment orb pod mary2 coretemple abyss dome""".split()
COPIED = ["citybook", "custombook", "forestbook", "labbook", "leveleditorbook", "mansionbook", "userbook", "virtualbookk"]
OTHER = ["red_used", "keys", "k_score", "k_root", "k_wood_used", "k_red_used", "k_ngplus", "version", "virtualbook", "city", "citybookk", "userboo"]
FIELDS = [("combo", 2), ("time", 4), ("thorough", 4), ("best_time", 4), ("overall", 2)]
HEADER = b"DF_STA"


def entry(rng, name):
    e = {"n": name, "fields": {f: vals.rand_leaf(rng, t) for f, t in FIELDS}, "more": []}
    if rng.random() < 0.2:
        e["more"] = [[k, vals.rand_leaf(rng)] for k in rng.sample(["rind", "key_type", "character", "new"], rng.randint(1, 3))]
    return e


def rand_name(rng):
    r = rng.random()
    if r < 0.75:
        return rng.choice(LEVELS)
    return rng.choice(["", "custom", "Downhill", "downhill2", "downhil", "mary3", "tutorial0", "newtutorial1", "tunnels2", "momentum3", "exec func ruin user", "hex:646f776e68696c6c00", "hex:ff00", "dom", "dome ", "z"])


def raw(name):
    return bytes.fromhex(name[4:]) if name.startswith("hex:") else name.encode()


def build_score(e):
    from dustmaker import variable as V

    kv = {"file_name": V.VariableString(raw(e["n"]))}
    for f, _t in FIELDS:
        kv[f] = vals.build(e["fields"][f])
    for k, v in e["more"]:
        kv[k] = vals.build(v)
    return V.VariableStruct(kv)


def make_stats(c):
    from dustmaker import variable as V

    st = {k: vals.build(v) for k, v in c["vars"]}
    if c["has_score"]:
        st["score"] = V.VariableArray(V.VariableStruct, [build_score(e) for e in c["scores"]])
    return st


def project(stats):
    out = [{"k": k if isinstance(k, str) else "?", "v": vals.proj(v)} for k, v in stats.items()]
    return out


def fill(e, res):
    """the observed conversion"""
    if not isinstance(res, dict):
        e["rc"] = "type"
        return
    e["out"] = project(res)
    sc = vals.proj(res["k_score"]) if "k_score" in res else vals.bad("none")
    e["scoretype"] = sc.get("et", -1)
    new = []
    for x in sc.get("a", []):
        kv = [{"k": vals.unkey(p["k"]), "v": p["v"]} for p in x.get("kv", [])]
        nb = [p["v"].get("s", [-1]) for p in kv if p["k"] == "file_name"]
        new.append({"nb": nb[0] if nb else [-1], "kv": kv})
    e["newscores"] = new


def read_vars(data):
    import io

    from dustmaker.dfreader import DFReader

    with DFReader(io.BytesIO(data)) as r:
        return r.read_var_file(HEADER)


def write_vars(stats, header=HEADER):
    import io

    from dustmaker.dfwriter import DFWriter

    buf = io.BytesIO()
    with DFWriter(buf, noclose=True) as w:
        w.write_var_file(header, stats)
    return buf.getvalue()


def dispatch(c):
    from dustmaker.cmd.save_convert import migrate_stats

    e = {"rc": "ok", "kept": True, "outkept": True, "size": 0, "len": 0, "notsave": False, "how": c["how"], "in": [{"k": k, "v": v} for k, v in c["vars"]], "out": [], "newscores": [], "scoretype": 14, "scores": []}
    for s in c["scores"] if c["has_score"] else []:
        e["scores"].append({"n": s["n"], "nb": list(raw(s["n"])), **s["fields"]})
    made = observe(make_stats, c)
    if made[0] != "ok":
        return ("crash",)
    stats = made[1]
    if c["how"] == "call":
        before = vals.projmap(stats)
        got = observe(migrate_stats, stats)
        if got[0] != "ok":
            e["rc"] = "fail"
            return [e]
        e["kept"] = before == vals.projmap(stats)
        fill(e, got[1])
        return [e]
    rng = random.Random(c["seed"])
    data = observe(write_vars, stats)
    if data[0] != "ok":
        return ("crash",)
    data = data[1]
    if c["how"] == "refuse":
        e["notsave"] = True
        r = rng.randrange(4)
        if r == 0:
            data = data[: rng.choice([0, 1, 3, 5])]
        elif r == 1:
            data = write_vars(stats, b"DF_CFG")
        elif r == 2:
            data = b"hello, world" * 3
        else:
            data = None
    with Scratch() as s:
        if data is not None:
            s.put("stats0", data)
        old = rng.choice([None, b"previous", b"previous" * 6000, data])
        if old is not None:
            s.put("stats1", old)
        rc, _out = s.run("saveconvert", "stats0", "stats1")
        e["kept"] = s.get("stats0") == data
        e["outkept"] = s.get("stats1") == old
        if rc != 0:
            e["rc"] = "fail"
            return [e]
        if not e["notsave"]:
            new = s.get("stats1") or b""
            # the file says how long it is; nothing of an older file may follow
            e["size"], e["len"] = int.from_bytes(new[8:12], "little") % 2**31, len(new)
            got = observe(read_vars, new)
            if got[0] != "ok":
                e["rc"] = "unreadable"
                return [e]
            fill(e, got[1])
    return [e]


def run(ctx):
    ctx.rules.append("every sequence of up to three score entries over six level names (all tiers, unknown) of SaveConvMC, one save per known level and one with all, random saves with duplicate and near-miss level names, extra and missing variables; both migrate_stats and the saveconvert command; inputs that are not saves; non-trivial: distinct saves")
    ctx.assumptions.append("score entries carry the six fields the game writes, with the types the game writes")
    ctx.model_check("SaveConvMC", ctx.scale("SaveConvMC.cfg", "SaveConvMCdeep.cfg"))
    ctx.expect_violation("SaveConvMC", "SaveConvMut.cfg", "unknown levels are kept")
    rng = ctx.rng
    cases = []

    def case(names, how, names_of_vars):
        vs = [[k, vals.rand_leaf(rng, 2) if k == "red_used" else vals.rand_val(rng, 1)] for k in names_of_vars]
        cases.append({"scores": [entry(rng, n) for n in names], "has_score": True, "vars": vs, "how": how, "seed": rng.getrandbits(30)})
        return cases[-1]

    for g in ctx.generate("SaveConvMC", "SaveConvGen.cfg", count=False):
        if g["red"] and len(g["scores"]) == 3 and not ctx.thorough and rng.random() < 0.5:
            continue
        c = case([s["n"] for s in g["scores"]], "call", [])
        for s, e in zip(g["scores"], c["scores"]):
            e["fields"]["combo"] = {"t": 2, "n": s["combo"]}
        if g["red"]:
            c["vars"] = [["red_used", {"t": 2, "n": g["red"]}]]
    for n in LEVELS:
        case([n], "call", [])
    for how in ("call", "cli"):
        case(LEVELS, how, COPIED)
        case(LEVELS[::-1], how, COPIED + OTHER)
        case([], how, [])["has_score"] = False
        case(sorted(LEVELS) * 2, how, ["red_used"])
    for k in COPIED + OTHER:
        case([], "call", [k])["has_score"] = rng.random() < 0.5
    for _ in range(ctx.scale(1500, 30000)):
        c = case([rand_name(rng) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20]))], "call", rng.sample(COPIED + OTHER, rng.randint(0, 8)))
        c["has_score"] = rng.random() < 0.95
        if rng.random() < 0.2 and c["scores"]:
            c["scores"].append(rng.choice(c["scores"]))
    for _ in range(ctx.scale(120, 1500)):
        case([rand_name(rng) for _ in range(rng.choice([0, 1, 3, 8]))], rng.choice(["cli", "cli", "refuse"]), rng.sample(COPIED + OTHER, rng.randint(0, 8)))
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(json.dumps(c, sort_keys=True))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    good = [g for g in groups if g != ("crash",)]
    ctx.judge("SaveTrace", good)
    if good:
        ctx.sample([s["n"] for s in good[len(good) // 2][0]["scores"]])
        ctx.sample([s["n"] for s in good[-1][0]["scores"]])
