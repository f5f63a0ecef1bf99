"""Drivers for the variable codec (C03, C04)."""
import io
import math

from . import vals
from .bits import natural
from .core import observe


def oc(res):
    if res[0] == "ok":
        return "ok"
    if res[0] == "exc":
        return "ValueError" if "ValueError" in res[1] else res[1][0]
    return res[0]


def _write(off, fn):
    """Run fn(writer) after `off` one bits; returns (outcome, tell, bytes)."""
    from dustmaker.dfwriter import DFWriter

    buf = io.BytesIO()
    wr = DFWriter(buf, noclose=True)
    if off:
        wr.write(off, (1 << off) - 1)
    res = observe(fn, wr)
    tell = natural(wr.bit_tell())
    cl = observe(wr.close)
    return (oc(res) if oc(res) != "ok" else oc(cl)), tell, list(buf.getvalue())


def _read(data, off, fn):
    from dustmaker.dfreader import DFReader

    rd = DFReader(io.BytesIO(bytes(data)))
    res = observe(rd.bit_seek, off)
    if res[0] == "ok":
        res = observe(fn, rd)
    t = observe(rd.bit_tell)
    return oc(res), (res[1] if res[0] == "ok" else None), natural(t[1]) if t[0] == "ok" else -1


def do_var(c):
    v, off = c["v"], c["off"]
    out, w1, data = _write(off, lambda w: w.write_variable(c["var"] if "var" in c else vals.build(v)))
    e = {"op": "var", "v": v, "off": off, "out": out, "w1": w1, "bytes": data, "rout": "none", "r": vals.bad("none"), "r1": -1}
    if out == "ok":
        # trailing data behind the value: the reader must stop in time
        rout, r, r1 = _read(data + [0xAA, 0x55, 0xFF], off, lambda rd: rd.read_variable(vals.vtype(v["t"])))
        e["rout"], e["r1"] = rout, r1
        e["r"] = vals.proj(r) if rout == "ok" else vals.bad("exc")
        if rout == "ok":
            c["read"] = r
    else:
        e["bytes"] = []
    return [e]


def morph(var, v, rng):
    """the variable with value v: the same object, changed in place, where its type allows"""
    want = vals.build(v)
    if type(var) is not type(want) or rng.random() < 0.1:
        return want
    if v["t"] == 14:
        new = {vals.unkey(e["k"]): (morph(var.value[vals.unkey(e["k"])], e["v"], rng) if vals.unkey(e["k"]) in var.value else vals.build(e["v"])) for e in v["kv"]}
        if rng.random() < 0.5:
            var.value.clear()
            var.value.update(new)
        else:
            var.value = new
    elif v["t"] == 15 and var.value[0] is want.value[0]:
        lst = var.value[1]
        lst[:] = [morph(lst[i], x, rng) if i < len(lst) else vals.build(x) for i, x in enumerate(v["a"])]
    else:
        var.value = want.value
    return var


def do_vhist(c):
    """write, change in place, write again; sometimes going on with what was read"""
    import random

    rng = random.Random(c["seed"])
    var, evs = vals.build(c["vs"][0]), []
    for k, v in enumerate(c["vs"]):
        if k:
            var = morph(var, v, rng)
        cc = {"v": v, "off": c["off"], "var": var}
        evs += do_var(cc)
        if "read" not in cc:
            break
        if rng.random() < 0.4:
            var = cc["read"]
    return evs


def hist_cases(ctx, n):
    rng = ctx.rng

    def change(v, depth=0):
        """another value of mostly the same shape"""
        if rng.random() < 0.15:
            return vals.rand_val(rng, 2 - min(depth, 2))
        if v["t"] == 14:
            kv = [{"k": e["k"], "v": change(e["v"], depth + 1)} for e in v["kv"] if rng.random() < 0.9]
            return {"t": 14, "kv": kv}
        if v["t"] == 15:
            a = [(change(x, depth + 1) if rng.random() < 0.7 else x) for x in v["a"] if rng.random() < 0.9]
            return {"t": 15, "et": v["et"], "a": [x if x["t"] == v["et"] else vals.rand_val(rng, 1, v["et"]) for x in a]}
        return vals.rand_leaf(rng, v["t"])

    out = []
    for _ in range(n):
        vs = [vals.rand_val(rng, 3, rng.choice([14, 14, 15, 5, 4]))]
        for _ in range(rng.choice([1, 2])):
            vs.append(change(vs[-1]))
        out.append({"op": "vhist", "vs": vs, "off": rng.randrange(8), "seed": rng.getrandbits(30)})
    return out


def do_dec(c):
    rout, r, r1 = _read(c["bytes"], c["off"], lambda rd: rd.read_variable(vals.vtype(c["ty"])))
    return [{"op": "dec", "bytes": c["bytes"], "off": c["off"], "ty": c["ty"], "rout": rout, "r1": r1,
             "r": vals.proj(r) if rout == "ok" else vals.bad("exc")}]


def between():
    """floats within less than a step of a whole or half number"""
    return [{"op": "apx", "x": n + h + d * 2.0**-k} for n in (0, 1, -1, 2, -7, 1000, -(10**6)) for k in (32, 33, 34, 40, 46, 52, 54, 60, 1000)
            for h in (0, 0.5) for d in (1, -1, 0.75)]


def do_apx(c):
    from dustmaker.variable import VariableFloat

    x = c["x"]
    out, _w1, data = _write(0, lambda w: w.write_variable(VariableFloat(x)))
    i = math.floor(x)
    f = int((x - i) * vals.F31)
    if f == vals.F31:  # x - floor(x) rounded up to 1.0
        i, f = i + 1, 0
    rout, r, _r1 = _read(data, 0, lambda rd: rd.read_variable(vals.vtype(4))) if out == "ok" else (out, None, 0)
    return [{"op": "apx", "i": i, "f": f, "rout": rout, "r": vals.proj(r) if rout == "ok" else vals.bad("exc")}]


def do_big(c):
    """floats the format has no room for, alone and between other variables"""
    from dustmaker.variable import VariableFloat, VariableInt, VariableStruct, VariableVec2

    x = c["x"]
    hi = 1 if not math.isfinite(x) else min(abs(math.floor(x)) >> 31, 1)
    evs = []
    for var in (VariableFloat(x), VariableVec2((0.5, x)), VariableVec2((x, -0.5)), VariableStruct({"ab"[: c["n"]]: VariableFloat(x), "c": VariableInt(-1)})):
        out, _w1, _data = _write(c["n"], lambda w, var=var: w.write_variable(var))
        evs.append({"op": "big", "x": repr(x), "hi": hi, "out": out})
    return evs


def do_file(c):
    header = bytes(c["header"])
    vs = vals.build(c["v"]).value
    out, w1, data = _write(0, lambda w: w.write_var_file(header, vs))
    rout, r = "none", vals.bad("none")
    if out == "ok":
        rout, d, _ = _read(data, 0, lambda rd: rd.read_var_file(header))
        if rout == "ok":
            r = vals.projmap(d)
    else:
        data = []
    return [{"op": "file", "header": c["header"], "v": c["v"], "out": out, "w1": w1, "bytes": data, "rout": rout, "r": r}]


def do_text(c):
    text = vals.unkey(c["k"])
    out, w1, data = _write(c["off"], lambda w: w.write_6bit_str(text))
    rout, r, r1 = "none", [-1], -1
    if out == "ok":
        rout, s, r1 = _read(data + [255, 255], c["off"], lambda rd: rd.read_6bit_str())
        r = vals.key(s) if rout == "ok" else [-1]
    return [{"op": "text", "k": c["k"], "off": c["off"], "out": out, "w1": w1, "bytes": data if out == "ok" else [], "rout": rout, "r": r, "r1": r1}]


def do_fix(c):
    ib, fb, i, f, off = c["ib"], c["fb"], c["i"], c["f"], c["off"]
    x = i + f / (1 << (fb - 1))
    out, w1, data = _write(off, lambda w: w.write_float(ib, fb, x))
    rout, r, r1 = "none", [0, -1], -1
    if out == "ok":
        rout, y, r1 = _read(data + [255], off, lambda rd: rd.read_float(ib, fb))
        if rout == "ok" and isinstance(y, float):
            yi = math.floor(y)
            yf = (y - yi) * (1 << (fb - 1))
            r = [yi, int(yf)] if yf == int(yf) and abs(yi) < 2**31 else [0, -1]
    return [{"op": "fix", "ib": ib, "fb": fb, "i": i, "f": f, "off": off, "out": out, "w1": w1, "bytes": data if out == "ok" else [], "rout": rout, "r": r, "r1": r1}]


def do_limit(c):
    """Arrays around the 65535 entry limit: plain small entries plus long strings."""
    from dustmaker import variable as V

    et = c["et"]
    small = {1: V.VariableBool(True), 5: V.VariableString(b"x"), 2: V.VariableInt(-2)}[et]
    elems = [small] * c["plain"] + [V.VariableString(bytes([i % 251 for i in range(n)])) for n in c["lens"]]
    var = V.VariableArray(type(small), elems)
    if c["nest"]:
        var = V.VariableStruct({"k": var})
    out, w1, data = _write(0, lambda w: w.write_variable(var))
    same, count = False, -1
    if out == "ok":
        rout, r, r1 = _read(data + [1], 0, lambda rd: rd.read_variable(vals.vtype(14 if c["nest"] else 15)))
        same = rout == "ok" and r == var and r1 == w1
        raw = int.from_bytes(bytes(data[:8]), "little")
        count = (raw >> ((4 + 12 + 4) if c["nest"] else 4)) & 0xFFFF
    return [{"op": "limit", "et": et, "plain": c["plain"], "lens": c["lens"], "out": out, "same": bool(same), "count": count}]


DO = {"var": do_var, "vhist": do_vhist, "dec": do_dec, "apx": do_apx, "file": do_file, "text": do_text, "fix": do_fix, "limit": do_limit, "big": do_big}


def run_case(c):
    return DO[c["op"]](c)


def long_strings(ctx):
    m = 65535
    lens = [m - 1, m, m + 1] + ctx.scale([2 * m, 2 * m + 1], [2 * m - 1, 2 * m, 2 * m + 1, 3 * m])
    cases = []
    for k, n in enumerate(lens):
        s = {"t": 5, "s": [(i * 7 + k) % 256 for i in range(n)]}
        s2 = {"t": 5, "s": [1, 2]}
        off = (k * 3) % 8
        cases.append({"op": "var", "off": off, "v": s})
        cases.append({"op": "var", "off": off, "v": {"t": 14, "kv": [{"k": [97, 98], "v": s}, {"k": [99], "v": s2}]}})
        cases.append({"op": "var", "off": off, "v": {"t": 15, "et": 5, "a": [s2, s, s2]}})
    # a good many continuations
    s = {"t": 5, "s": [(i * 11 + 5) % 256 for i in range(4 * m + 17)]}
    cases.append({"op": "var", "off": 3, "v": {"t": 14, "kv": [{"k": [122], "v": s}, {"k": [48], "v": {"t": 1, "b": True}}]}})
    return cases


def random_cases(ctx, n):
    rng = ctx.rng
    cases = []
    for _ in range(n):
        cases.append({"op": "var", "off": rng.randrange(8), "v": vals.rand_val(rng, rng.choice([0, 1, 2, 3, 4]))})
    for _ in range(n // 10):
        v = vals.rand_val(rng, 2, 14)
        bad = rng.choice([[ord("-")], [ord("a")] * 64, [233], [ord(" ")], [ord("`")], [ord("|")], [ord("@")], [ord("[")], [ord(":")], [ord("/")], [94], [91, 97]])
        if not any(e["k"] == bad for e in v["kv"]):
            v["kv"].insert(rng.randint(0, len(v["kv"])), {"k": bad, "v": vals.rand_leaf(rng)})
        if rng.random() < 0.3:
            v = {"t": 15, "et": 14, "a": [v]}
        cases.append({"op": "var", "off": rng.randrange(8), "v": v})
    return cases


def limits(ctx):
    m = 65535
    ls = [
        {"et": 5, "plain": m, "lens": [], "nest": False},
        {"et": 5, "plain": m - 1, "lens": [m], "nest": False},
        {"et": 5, "plain": m - 2, "lens": [m], "nest": False},
        {"et": 1, "plain": m, "lens": [], "nest": True},
        {"et": 1, "plain": m + 1, "lens": [], "nest": True},
        {"et": 2, "plain": m + 1, "lens": [], "nest": False},
        {"et": 5, "plain": m - 4, "lens": [2 * m + 5, m - 1], "nest": True},
        {"et": 5, "plain": m - 4, "lens": [2 * m + 5, m], "nest": True},
        {"et": 5, "plain": m + 1, "lens": [], "nest": True},
    ]
    return [dict(x, op="limit") for x in ls]


def bigs(ctx):
    edge = [2147483647.5, 2147483647.0, 2147483648.0, -2147483647.0, -2147483646.5, -2147483647.25, -2147483648.0, 3e9, -3e9, 5e9, 1e11, -1e12, 1e300, math.inf, -math.inf, math.nan]
    edge += [ctx.rng.choice([-1, 1]) * ctx.rng.uniform(2**30, 2**33) for _ in range(ctx.scale(20, 400))]
    return [{"op": "big", "x": x, "n": n} for x in edge for n in range(3)]


def texts(ctx):
    rng = ctx.rng
    out = [{"op": "text", "off": i % 8, "k": [ord(c)]} for i, c in enumerate(vals.ALPHABET)]
    out += [{"op": "text", "off": rng.randrange(8), "k": [c]} for c in list(range(32, 127)) + [0, 128, 200, 0x161, 0xFF10, 0x41 + 0x100] if chr(c) not in vals.ALPHABET]
    for n in (0, 1, 62, 63, 64, 65, 127, 128):
        out.append({"op": "text", "off": rng.randrange(8), "k": [ord(rng.choice(vals.ALPHABET)) for _ in range(n)]})
    for _ in range(ctx.scale(60, 600)):
        out.append({"op": "text", "off": rng.randrange(8), "k": vals.rand_key(rng)})
    return out


def fixes(ctx):
    rng = ctx.rng
    out = []
    for ib, fb in ((32, 32), (32, 8), (28, 4)):
        edge = [(0, 0), (0, 1), (0, (1 << (fb - 1)) - 1), (-1, 0), (-1, 1), (-1, (1 << (fb - 1)) - 1), (1, 0), (-2, 1 << (fb - 2)),
                ((1 << (ib - 1)) - 1, 0), (-((1 << (ib - 1)) - 1), 0), (1 << (ib - 2), 0), (-(1 << (ib - 2)), 0)]
        for i, f in edge:
            out.append({"op": "fix", "ib": ib, "fb": fb, "i": i, "f": f, "off": rng.randrange(8)})
        for _ in range(ctx.scale(100, 1500)):
            i, f = vals.rand_fix(rng)
            lim = (1 << (ib - 1)) - 1
            i = max(-lim, min(lim, i))
            out.append({"op": "fix", "ib": ib, "fb": fb, "i": i, "f": f >> (32 - fb), "off": rng.randrange(8)})
    return out


def judge(ctx, cases, prefixes):
    groups = ctx.pmap(run_case, cases)
    ok = []
    for c, g in zip(cases, groups):
        ctx.count(repr(c)[:4000])
        if g == ("crash",):
            ctx.violation(["crash"], c)
        else:
            ok.append(g)
    ctx.judge("VarTrace", ok, prefixes=prefixes)
