"""C26: the transform command does what it documents, in the documented order."""
import random

from . import levels as L
from . import levtx
from .cli import Scratch


def dispatch(c):
    rng = random.Random(c["seed"])
    level = L.build(c["lev"], rng)
    o = c["o"]
    made = L.write_level(level)
    data = made[1] if made[0] == "ok" else b""
    got = L.read_level(data)
    if got[0] != "ok":
        view = levtx.view(level)
        return [{"op": "cli", **o, "args": [], "out": "no input", "kept": True, "size": 0, "len": 0, "before": view, "after": view}]
    before = levtx.view(got[1])

    def px(u):
        return repr(u // 8) if u % 8 == 0 and rng.random() < 0.5 else repr(u / 8)

    parts = []
    if o["up"] != 1 or rng.random() < 0.2:
        parts.append(["--upscale", str(o["up"])])
    if o["n"] or rng.random() < 0.2:
        parts.append(["--rotate=%d" % o["n"]])
    if o["vf"]:
        parts.append(["--vflip"])
    if o["hf"]:
        parts.append(["--hflip"])
    if o["x"] or rng.random() < 0.2:
        parts.append(["--translate-x=" + px(o["x"])])
    if o["y"]:
        parts.append(["--translate-y=" + px(o["y"])])
    pos = ["in.lvl", "in.lvl" if c["same"] else "out.lvl"]
    rng.shuffle(parts)
    at = rng.randint(0, len(parts))
    args = [a for p in parts[:at] for a in p] + pos + [a for p in parts[at:] for a in p]
    with Scratch() as s:
        s.put("in.lvl", data)
        if c["exists"] and not c["same"]:
            s.put("out.lvl", b"old content" * 4000)
        rc, _out = s.run("transform", *args)
        kept = c["same"] or s.get("in.lvl") == data
        made = s.get(pos[1]) or b""
        res = L.read_level(made)
    # the file says how long it is; nothing of an older file may follow
    size = int.from_bytes(made[8:12], "little") % 2**31
    ok = rc == 0 and res[0] == "ok"
    return [{"op": "cli", **o, "args": args, "out": "ok" if ok else "rc%d" % rc, "kept": kept, "size": size, "len": len(made), "before": before, "after": levtx.view(res[1]) if ok else before}]


FAILS = ["far", "far", "magic", "old", "empty", "missing"]


def dispatch_fail(c):
    """a command that cannot be completed"""
    rng = random.Random(c["seed"])
    level = L.build(c["lev"], rng)
    args = [rng.choice(["--translate-x=1900000000", "--translate-y=1900000000"])]
    if c["what"] == "far":
        # representable, but not after the shift
        far = L.make_entity("enemy_bear", {}, 0, 18, False, False, True)
        pos = (400000000.0, 3.0) if "x=" in args[0] else (3.0, 400000000.0)
        level.props.clear()
        level.backdrop.props.clear()
        level.add_entity(*pos, far)
        if rng.random() < 0.5:
            args.append("--rotate=4")
    made = L.write_level(level)
    data = made[1] if made[0] == "ok" else b""
    if c["what"] == "magic":
        data = b"DF_LVX" + data[6:]
    elif c["what"] == "old":
        data = data[:6] + bytes([rng.choice([0, 3, 41, 42]), 0]) + data[8:]
    elif c["what"] == "empty":
        data = b""
    pos = ["in.lvl", "in.lvl" if c["same"] else "out.lvl"]
    with Scratch() as s:
        if c["what"] != "missing":
            s.put("in.lvl", data)
        if not c["same"] and c["exists"]:
            s.put("out.lvl", b"old content" * 4000)
        before = [s.get(n) for n in ("in.lvl", "out.lvl")]
        rc, _out = s.run("transform", *pos, *args)
        kept = [s.get(n) == b for n, b in zip(("in.lvl", "out.lvl"), before)]
    return [{"op": "clifail", "what": c["what"], "made": made[0] == "ok", "out": "ok" if rc == 0 else "refused" if rc > 0 else "rc%d" % rc, "kept": kept}]


def run(ctx):
    ctx.rules.append("every combination of flips and quarter turns, with factors 0..4, shifts (whole tiles, halves, odd and fractional pixels), output new, existing or the input itself, on random levels of every level type; commands that cannot complete (result out of range, wrong, too old, empty or missing input); non-trivial: distinct (level, options)")
    ctx.assumptions.append("props on whole pixels (all the file format keeps); shifts of fractional pixels on levels without props")
    ctx.model_check("LevelTxMC", ctx.scale("LevelUpMC.cfg", "LevelUpMCdeep.cfg"))
    ctx.expect_violation("LevelTxMC", "LevelTxMut.cfg", "image of the top left corner taken for the cell of the image")
    rng = ctx.rng
    cases = []
    for i in range(ctx.scale(500, 4000)):
        o = {"up": [1, 2, 3, 1, 4, 0][(i // 16) % 6], "n": [0, 1, 2, 3][i % 4] + rng.choice([0, 0, 4, -4]), "vf": bool(i & 4), "hf": bool(i & 8), "x": 0, "y": 0}
        lev = levtx.rand_level(rng, whole=True)
        if rng.random() < 0.7:
            frac = rng.random() < 0.3
            o["x"], o["y"] = levtx.shift(rng, not frac), levtx.shift(rng, not frac)
            if o["x"] % 8 or o["y"] % 8:
                lev["props"], lev["bprops"] = [], []
        cases.append({"lev": lev, "o": o, "seed": rng.getrandbits(30), "same": rng.random() < 0.2, "exists": rng.random() < 0.4})
    bad = [{"lev": levtx.rand_level(rng, whole=True), "what": FAILS[i % len(FAILS)], "seed": rng.getrandbits(30), "same": rng.random() < 0.5, "exists": rng.random() < 0.7}
           for i in range(ctx.scale(60, 400))]
    groups = ctx.pmap(dispatch, cases) + ctx.pmap(dispatch_fail, bad)
    for c, g in zip(cases + bad, groups):
        ctx.count(repr(c))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("LevelTxTrace", [g for g in groups if g != ("crash",)], cfg="LevelUpTrace.cfg", shards=ctx.scale(5, 8))
    ctx.sample({"args": groups[len(cases) - 1][0]["args"] if groups[len(cases) - 1] != ("crash",) else ""})
