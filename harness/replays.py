"""Replays <-> abstract replays of Replay.tla, and what the code does with them."""
import io
import itertools
import math

from . import levels as lv
from .core import MachineryError, observe
from .vals import i32, u32

BITS = [2, 2, 2, 2, 2, 4, 4, 4, 16, 16, 8]
NEUTRAL = [1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]
NUM = {1: 7, 3: 8, 4: 11}


def to_value(i, v):
    """python value of stored bits v of intent i"""
    from dustmaker.replay import MouseState

    if i < 2:
        return v - 1
    if i in (8, 9):
        return v / 32767.0
    if i == 10:
        return MouseState(v)
    return v


def to_stored(i, x):
    """stored bits of a python intent value (or -1)"""
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return -1
    if i in (8, 9):
        v = round(x * 32767) if isinstance(x, float) or x == 0 else -1
        return v if v / 32767.0 == x else -1
    if not isinstance(x, int):
        return -1
    return int(x) + 1 if i < 2 else int(x)


def runs(i, values):
    return [{"v": v, "n": sum(1 for _ in g)} for v, g in itertools.groupby(to_stored(i, x) for x in values)]


def build(a):
    from dustmaker import replay as R

    players = []
    for p in a["players"]:
        pd = R.PlayerData(character=R.Character(p["ch"]))
        for i, rs in enumerate(p["st"]):
            if rs or p.get("explicit", True):
                pd.intents[R.IntentStream(i)] = [x for r in rs for x in [to_value(i, r["v"])] * r["n"]]
        players.append(pd)
    ents = {}
    for e in a["ents"]:
        ents[u32(e["uid"])] = R.EntityData(frames=[
            R.EntityFrame(frame=u32(f[0]), x_pos=f[1] / 10.0, y_pos=f[2] / 10.0, x_speed=f[3] / 100.0, y_speed=f[4] / 100.0) for f in e["fr"]])
    return R.Replay(version=a["ver"], username=bytes(a["user"]), level=bytes(a["level"]), frames=u32(a["frames"]), players=players, entities=ents)


def tenth(x, den):
    if isinstance(x, bool) or not isinstance(x, (int, float)) or not math.isfinite(x):
        return -1
    k = round(x * den)
    return k if k / den == x and abs(k) < 2**31 else 123456789


def proj(rep):
    n = NUM.get(rep.version, 0)
    players = []
    for p in rep.players:
        st = []
        for i in range(n):
            got = [v for k, v in p.intents.items() if int(k) == i]
            st.append(runs(i, got[0]) if got else [])
        players.append({"ch": lv.nat(p.character), "st": st})
    ents = [{"uid": i32(k), "fr": frames_of(d)} for k, d in rep.entities.items()]
    return {"ver": lv.nat(rep.version), "user": list(rep.username), "level": list(rep.level), "frames": i32(rep.frames), "players": players, "ents": ents}


NOREP = {"ver": -1, "user": [], "level": [], "frames": 0, "players": [], "ents": []}


def gets(rep):
    """get_intent_value over all frames and some beyond"""
    from dustmaker.replay import IntentStream

    out = []
    for p in rep.players:
        row = []
        for i in range(NUM.get(rep.version, 0)):
            n = max([len(v) for v in p.intents.values()] + [0])
            row.append(runs(i, [p.get_intent_value(IntentStream(i), f) for f in range(n + 3)]))
        out.append(row)
    return out


def frames_of(d):
    return [[i32(f.frame) if isinstance(f.frame, int) else 0, tenth(f.x_pos, 10.0), tenth(f.y_pos, 10.0), tenth(f.x_speed, 100.0), tenth(f.y_speed, 100.0)] for f in d.frames]


def looks(rep):
    """who: the entity data of players and cameras 1..4 (and of the default player); out: intents at frames that do not exist"""
    from dustmaker.replay import IntentStream

    def data(d):
        return [] if d is None else [frames_of(d)]

    who = [{"p": p, "body": data(rep.get_player_entity_data(p)), "cam": data(rep.get_camera_entity_data(p))} for p in (1, 2, 3, 4)]
    who.append({"p": 1, "body": data(rep.get_player_entity_data()), "cam": data(rep.get_camera_entity_data())})
    out = [[[to_stored(i, p.get_intent_value(IntentStream(i), f)) for i in range(11)] for f in (-1, -2, 2**31)] for p in rep.players]
    return {"who": who, "out": out}


NOLOOKS = {"who": [], "out": []}


# ------------------------------------------------------------- random
def rand_runs(rng, i, small=False):
    rs = []
    last = None
    for _ in range(rng.choice([0, 0, 1, 2, 3, 6])):
        v = rng.choice([0, 1, 2, (1 << BITS[i]) - 1, rng.randrange(1 << BITS[i]), NEUTRAL[i], NEUTRAL[i]])
        n = rng.choice([1, 1, 2, 3] if small else [1, 1, 2, 5, 253, 254, 255, 256, 257, 509, 510, 511, rng.randint(1, 900)])
        if v != last:
            rs.append({"v": v, "n": n})
        last = v
    return rs


def rand_replay(rng, ver=None, small=False):
    ver = ver or rng.choice([1, 3, 4])
    np = 1 if ver == 1 else rng.choice([0, 1, 1, 2, 4])
    players = [{"ch": rng.randrange(8), "st": [rand_runs(rng, i, small) for i in range(NUM[ver])]} for _ in range(np)]
    ents = []
    big = 2**31 - 1
    for uid in sorted(rng.sample([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 2**31, 2**32 - 1, 55555], rng.choice([0, 1, 2, 4, 8]))):
        fr = [[rng.choice([0, 8, i32(2**32 - 1), rng.randrange(10**6)])] + [rng.choice([0, -1, big, -big, rng.randint(-10**6, 10**6)]) for _ in range(4)] for _ in range(rng.choice([0, 1, 2, 5]))]
        ents.append({"uid": i32(uid), "fr": fr})
    return {"ver": ver, "user": [rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 5, 300]))], "level": [rng.randrange(256) for _ in range(rng.choice([0, 1, 9, 255]))],
            "frames": rng.choice([0, 1, 1000, i32(2**32 - 1), rng.randrange(10**5)]), "players": players, "ents": ents}


BIG = ["ents", "fr", "toks", "players", "run", "user", "raw"]


def big_replay(rng, what):
    """counts and sizes beyond one byte, and beyond two where the judge can follow"""
    ver = rng.choice([3, 4])
    a = rand_replay(rng, ver, small=True)
    if not a["players"]:
        a["players"] = [{"ch": 1, "st": [[] for _ in range(NUM[ver])]}]

    def frame(k):
        return [k] + [rng.randint(-10**6, 10**6) for _ in range(4)]

    def alt(i, n):
        return [{"v": k % 2 + (1 if k % 5 else 0) * (2 - k % 2 * 2), "n": rng.choice([1, 1, 2]) if rng.random() < 0.95 else rng.choice([254, 255, 256, 257, 510, 511])} for k in range(n)]

    if what == "ents":
        uids = rng.sample(range(0, 2000), 290)
        a["ents"] = [{"uid": u, "fr": [frame(k) for k in range(rng.choice([0, 1, 2]))]} for u in uids]
    elif what == "fr":
        a["ents"] = [{"uid": 2, "fr": [frame(8 * k) for k in range(310)]}, {"uid": 3, "fr": [frame(8 * k) for k in range(280)]}, {"uid": 70000, "fr": []}]
    elif what == "toks":
        for i in (0, 2, 5, NUM[ver] - 1):
            rs, last = [], None
            for r in alt(i, 700):
                if r["v"] != last:
                    rs.append(r)
                last = r["v"]
            a["players"][0]["st"][i] = rs
    elif what == "players":
        a["players"] = [{"ch": rng.randrange(8), "st": [[{"v": 2, "n": 1 + k % 3}] if (i + k) % 7 == 0 else [] for i in range(NUM[ver])]} for k in range(262)]
    elif what == "run":
        for i in (1, 3, 6):
            a["players"][0]["st"][i] = [{"v": rng.choice([NEUTRAL[i], 2]), "n": 66000 + i}, {"v": 3, "n": 2}, {"v": NEUTRAL[i], "n": 70000}, {"v": 3, "n": 1}]
    elif what == "user":
        a["user"] = list(rng.randbytes(40000))
        a["level"] = list(rng.randbytes(255))
    else:      # a block of more than 64 KB
        a["ents"] = [{"uid": u, "fr": [frame(k) for k in range(240)]} for u in range(2, 16)]
    return a


def rand_tokens(rng, i, rs):
    """an arbitrary legal tokenisation of the runs, as another writer may choose"""
    toks = []
    c0 = 0
    rest = [dict(r) for r in rs]
    if rest and rest[0]["v"] == NEUTRAL[i] and rng.random() < 0.8:
        c0 = rng.randint(0, min(254, rest[0]["n"]))
        rest[0]["n"] -= c0
    for r in rest:
        n = r["n"]
        while n > 0:
            k = min(n, rng.choice([255, 255, 254, rng.randint(1, 255)]))
            toks.append({"v": r["v"], "c": k - 1})
            n -= k
    if rng.random() < 0.2:
        toks.append({"v": NEUTRAL[i], "c": rng.choice([0, 254])})
    return {"c0": c0, "toks": toks}


def rand_file(rng, base=None):
    a = base or rand_replay(rng, small=rng.random() < 0.5)
    a["toks"] = [[rand_tokens(rng, i, rs) for i, rs in enumerate(p["st"])] for p in a["players"]]
    a["named"] = bool(a["user"]) or rng.random() < 0.3
    a["slack"] = rng.choice([0, 0, 0, 1])
    return a


def encode(ctx, files, shards=8):
    out = [None] * len(files)
    hs = []
    for s in range(shards):
        part = [{"id": i, "f": files[i]} for i in range(s, len(files), shards)]
        if part:
            hs.append(ctx._start_judge("ReplayEncode", "ReplayEncode.cfg", [part], None, "3g"))
    for h, _gl, _path in hs:
        r = ctx._wait(h, 800)
        if r.rc != 0:
            raise MachineryError("ReplayEncode: " + r.out[-3000:])
        for j in r.json:
            out[j["id"]] = j["bytes"]
    if any(b is None for b in out):
        raise MachineryError("ReplayEncode: missing output")
    return out


# ------------------------------------------------------------- running the code
def do_rt(c):
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter

    a = c["a"]
    rep = c["rep"] if "rep" in c else build(a)
    before = proj(rep)
    e = {"op": "rt", "a": before, "a2": NOREP, "out": "", "rout": "none", "r": NOREP, "gets": [], "looks": NOLOOKS, "bytes": [], "blobs": [], "fmt": c["fmt"],
         "named": bool(a["user"]) or c["force"]}
    buf = io.BytesIO()

    def go():
        with DFWriter(buf, noclose=True) as w:
            if c["force"]:
                w.write_replay(rep, force_username=True)
            else:
                w.write_replay(rep)

    res = observe(go)
    e["out"] = lv.oc(res)
    e["a2"] = proj(rep)
    if res[0] == "ok":
        data = buf.getvalue()
        tail = bytes(c["tail"])
        rd = DFReader(io.BytesIO(data + tail))
        r = observe(rd.read_replay)
        e["rout"] = lv.oc(r)
        if r[0] == "ok":
            e["r"] = proj(r[1])
            e["gets"] = gets(r[1])
            e["looks"] = looks(r[1])
            c["read"] = r[1]
        if c["fmt"]:
            e["bytes"], e["blobs"] = list(data), lv.blobs(data)
    return [e]


def morph(rep, a, rng):
    """give an existing replay the content a, in place where possible"""
    want = build(a)
    rep.version, rep.username, rep.level, rep.frames = want.version, want.username, want.level, want.frames
    del rep.players[len(want.players) :]
    for k, p in enumerate(want.players):
        if k >= len(rep.players):
            rep.players.append(p)
            continue
        old = rep.players[k]
        old.character = p.character
        for i in list(old.intents):
            if i not in p.intents:
                del old.intents[i]
        for i, v in p.intents.items():
            if i in old.intents and rng.random() < 0.7:
                old.intents[i][:] = v
            else:
                old.intents[i] = v
    for u in list(rep.entities):
        if u not in want.entities:
            del rep.entities[u]
    for u, d in want.entities.items():
        if u in rep.entities and rng.random() < 0.7:
            rep.entities[u].frames[:] = d.frames
        else:
            rep.entities[u] = d


def do_hist(c):
    """write, change in place, look up, write again; sometimes going on with what was read"""
    import random

    rng = random.Random(c["seed"])
    rep = build(c["as"][0])
    evs = []
    for k, a in enumerate(c["as"]):
        if k:
            morph(rep, a, rng)
            g = observe(lambda: (gets(rep), looks(rep)))
            evs.append({"op": "look", "out": lv.oc(g), "a": proj(rep), "gets": g[1][0] if g[0] == "ok" else [], "looks": g[1][1] if g[0] == "ok" else NOLOOKS})
        cc = {"a": a, "rep": rep, "force": False, "tail": [], "fmt": c["fmt"]}
        evs += do_rt(cc)
        if "read" not in cc:
            break
        if rng.random() < 0.4:
            rep = cc["read"]
    return evs


def hist_case(rng, fmt):
    as_ = [rand_replay(rng, small=True) for _ in range(rng.choice([2, 3]))]
    if rng.random() < 0.6:  # mostly the same kind and uids, so that there is something to change in place
        ver = as_[0]["ver"]
        as_ = [as_[0]] + [rand_replay(rng, small=True, ver=ver) for _ in as_[1:]]
    return ("hist", {"as": as_, "seed": rng.getrandbits(30), "fmt": fmt})


def do_dec(c):
    from dustmaker.dfreader import DFReader

    data = bytes(c["bytes"])
    e = {"op": "dec", "bytes": list(data), "blobs": [], "rout": "", "r": NOREP, "kout": "", "k": NOREP, "pos": -1, "kpos": -1}
    tail = bytes(c["tail"])
    rd = DFReader(io.BytesIO(data + tail))
    r = observe(rd.read_replay)
    e["rout"] = lv.oc(r)
    if r[0] == "ok":
        e["r"], e["pos"] = proj(r[1]), lv.nat(rd.bit_tell())
    pre = c.get("pre", 0)
    rd = DFReader(io.BytesIO(bytes(pre) + data + tail))
    rd.read_bytes(pre)
    r = observe(rd.read_replay, known_length=len(data))
    e["kout"] = lv.oc(r)
    if r[0] == "ok":
        e["k"], e["kpos"] = proj(r[1]), lv.nat(rd.bit_tell() - 8 * pre)
    return [e]


def do_ref(c):
    from dustmaker.dfreader import DFReader

    rd = DFReader(io.BytesIO(bytes(c["bytes"])))
    return [{"op": "ref", "bytes": list(c["bytes"]), "rout": lv.oc(observe(rd.read_replay))}]


def do_apx(c):
    """entity data off the documented resolution"""
    from dustmaker import replay as R
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter

    fr = R.EntityFrame(frame=5, x_pos=c["v"][0], y_pos=c["v"][1], x_speed=c["v"][2], y_speed=c["v"][3])
    mouse = c["v"][4]
    rep = R.Replay(version=4, players=[R.PlayerData(intents={R.IntentStream.MOUSE_X: [mouse, 1.0], R.IntentStream.MOUSE_Y: [0.5, 1.0 - mouse, 0.0, 1.0]})], entities={2: R.EntityData(frames=[fr])})

    def go():
        buf = io.BytesIO()
        with DFWriter(buf, noclose=True) as w:
            w.write_replay(rep)
        out = DFReader(io.BytesIO(buf.getvalue())).read_replay()
        f = out.entities[2].frames[0]
        return [f.x_pos, f.y_pos, f.x_speed, f.y_speed, out.players[0].get_intent_value(R.IntentStream.MOUSE_X, 0), out.players[0].get_intent_value(R.IntentStream.MOUSE_Y, 1)]

    res = observe(go)
    pos = []
    if res[0] == "ok":
        for want, got, den in zip(c["v"] + [1.0 - mouse], res[1], (10.0, 10.0, 100.0, 100.0, 32767.0, 32767.0)):
            lo = math.floor(want * den)
            pos.append({"lo": lo, "f": int((want * den - lo) * 1000), "r": tenth(got, den)})
    return [{"op": "apx", "rout": lv.oc(res), "pos": pos}]


def dispatch(c):
    return {"rt": do_rt, "hist": do_hist, "dec": do_dec, "ref": do_ref, "apx": do_apx}[c[0]](c[1])


def run_cases(ctx, cases, prefixes):
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(repr(c))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("ReplayTrace", [g for g in groups if g != ("crash",)], prefixes=prefixes)


def from_gen(g, rng):
    """a replay that carries the generated stream on one intent"""
    ver = rng.choice([1, 3, 4])
    i = g["intent"] - 1
    st = [[] for _ in range(NUM[ver])]
    st[i] = g["rs"]
    other = rng.choice([5, 6])
    st[other] = [{"v": r["v"] + 9, "n": r["n"]} for r in g["rs"]]
    return {"ver": ver, "user": [], "level": [97], "frames": 100, "players": [{"ch": 0, "st": st}], "ents": []}
