"""C21: in-place command line edits are exact or leave the file alone."""
import importlib.util
import io
import json
import random

from . import jsondoc as J
from . import levels as lv
from . import vals
from .cli import Scratch
from .core import observe

NIL = {"has": False, "b": []}
HEADERS = [b"DF_STA", b"DF_CFG", b"DF_FOG"]


def bad_doc(rng, unfit):
    """a document the variables command cannot accept"""
    s = J.rand_schema(rng, 2, True)
    s["m"] = [e for e in s["m"] if e["k"] != [120]]
    d = J.doc_of(J.rand_value(rng, s))
    schema, doc = J.to_schema(s), J.to_doc(d)
    if unfit:
        bad = [("string", "\u0100"), ("string", "a\U0001F600"), ("int", 2**31), ("int", -(2**31) - 1), ("uint", -1), ("uint", 2**32), ("float", 3e9), ("float", -1e200), ("float", float("nan")), ("float", float("inf")),
               ("vec2", [1.0, 5e9]), ("vec2", [float("-inf"), 0.0])]
        t, x = rng.choice(bad)
        r = rng.random()
        if r < 0.4:
            where = rng.choice(["a" * 64, "a b", "\u00e9", "x-y", "a" * 200])
            schema[where], doc[where] = "int", 1
        elif r < 0.7:
            schema["x"], doc["x"] = t, x
        elif r < 0.85:
            schema["x"], doc["x"] = [t], [x]
        else:
            schema["x"], doc["x"] = [{"y": t}], [{}, {"y": x}]
        if rng.random() < 0.5:  # not the last variable
            schema["zz"], doc["zz"] = "string", "tail"
        return json.dumps({"schema": schema, "vars": doc}).encode()
    full = json.dumps({"schema": schema, "vars": doc}).encode()
    r = rng.randrange(14)
    if r == 0:
        return full[: rng.randrange(len(full))]
    if r == 1:
        return b""
    if r == 2:
        return json.dumps({"vars": doc}).encode()
    if r == 3:
        return json.dumps({"schema": schema}).encode()
    if r == 4:
        return b"\xff\xfe" + full
    if r == 5:
        return json.dumps([schema, doc]).encode()
    if r == 6:
        return json.dumps({"schema": rng.choice(["int", "string", ["int"], "bool", [{}], "uint", [[]]]), "vars": rng.choice([0, "", [], False, {}, None, 3])}).encode()
    if r == 7:
        return full + b"}"
    # one variable that does not agree with its schema
    t, x = rng.choice([("int", "1"), ("int", 1.5), ("int", None), ("string", 5), ("string", None), ("string", [1]), ("bool", 1), ("bool", "true"), ("float", "1.0"), ("float", None), ("vec2", [1.0]), ("vec2", [1.0, 2.0, 3.0]),
                       ("vec2", 1.0), ("vec2", [1.0, "2"]), ("uint", "7"), ("uint", {}), ("text", "x"), ("", 1), (["int"], 5), (["int"], ["a"]), ({"q": "int"}, [1]), ({"q": "int"}, {"p": 1}), ({}, {"p": 1}), ([], [1]), ("struct", {})])
    if r < 12:
        schema["x"], doc["x"] = t, x
    else:
        schema["x"], doc["x"] = [t], [x]
    if r == 12:
        del schema["x"]
    return json.dumps({"schema": schema, "vars": doc}).encode()


def concrete(rng, cmd):
    """arguments and document of an abstract command"""
    c = dict(cmd)
    if c["c"] == "update":
        c["data"], c["schema"], c["document"] = b"", {"s": "dict", "m": []}, {"j": "o", "kv": []}
        if c["doc"] in ("bad", "unfit"):
            c["data"] = bad_doc(rng, c["doc"] == "unfit")
            if c["doc"] == "bad" and rng.random() < 0.05:
                c["data"] = None
        else:
            s = J.rand_schema(rng, 3, True)
            d = J.doc_of(J.rand_value(rng, s))
            c["schema"], c["document"] = s, d
            c["data"] = json.dumps({"schema": J.to_schema(s), "vars": J.to_doc(d)}, indent=rng.choice([None, 2])).encode()
    return c


def make_target(c):
    from dustmaker.dfwriter import DFWriter

    t = c["target"]
    if t["kind"] == "vars":
        buf = io.BytesIO()
        with DFWriter(buf, noclose=True) as w:
            w.write_var_file(HEADERS[t["h"]], vals.build(t["v"]).value)
        return buf.getvalue()
    return bytes(t["bytes"]) if t["bytes"] is not None else None


def snap(s, name):
    b = s.get(name)
    return {"has": b is not None, "b": list(b or b"")}


def dispatch(c):
    rng = random.Random(c["seed"])
    made = observe(make_target, c)
    if made[0] != "ok":
        return ("crash",)
    evs = []
    with Scratch() as s:
        if made[1] is not None:
            s.put("target", made[1])
        if c["image"] is not None:
            s.put("image", bytes(c["image"]))
        s.put("bystander", b"other data")
        for cmd in c["cmds"]:
            x = concrete(rng, cmd)
            e = {"c": x["c"], "force": bool(x.get("force")), "header": [], "docok": False, "schema": {"s": "dict", "m": []}, "doc": {"j": "o", "kv": []}}
            if x["c"] == "print":
                args = ["variables", "target"] + rng.choice([[], ["--indent=0"]])
            elif x["c"] == "update":
                if x["data"] is not None:
                    s.put("doc.json", x["data"])
                args = ["variables", "target", "doc.json" if x["data"] is not None else "missing.json"]
                e.update(docok=x["doc"] not in ("bad", "unfit"), schema=x["schema"], doc=x["document"])
                if x["header"]:
                    h = rng.choice(["DF_STA", "DF_CFG", "DF_FOG"]) if x["header"] == "STA" else rng.choice(["DF_LVL", "DF_XYZ", "df_sta", "STA", "DF_RPL"])
                    e["header"] = [ord(ch) for ch in h]
                    args.insert(rng.choice([1, len(args)]), "--header=" + h)
            elif x["c"] == "extract":
                args = ["thumbnail", "target", "image"]
                if x["force"]:
                    args.insert(rng.randint(1, 3), "--force")
            else:
                args = ["thumbnail", "target", "image"]
                args.insert(rng.randint(1, 3), "--update" if x["c"] == "thumb" else rng.choice(["--auto-convert", "--auto-scale"]))
            before = {n: s.get(n) for n in s.names()}
            e["t0"], e["i0"] = snap(s, "target"), snap(s, "image")
            rc, _out = s.run(*args)
            e["t1"], e["i1"] = snap(s, "target"), snap(s, "image")
            after = {n: s.get(n) for n in s.names()}
            e["rest"] = all(before.get(n) == after.get(n) for n in set(before) | set(after) if n not in ("target", "image"))
            e["rc"] = "ok" if rc == 0 else "fail"
            e["args"] = args
            if x["c"] == "update" and not e["docok"]:
                e["text"] = repr(x["data"])[:300]
            evs.append(e)
    return evs


def run(ctx):
    ctx.rules.append("every history of two commands of CliFileMC (print, update with good, malformed and unrepresentable documents, with known and unknown header, extract, forced extract, thumbnail update, conversion without imaging library) on a random directory, plus random longer histories, on spec-encoded levels of several revisions, variable files, truncated levels, other files and missing files; non-trivial: distinct (directory, history)")
    ctx.assumptions.append("commands run to completion (no power loss during the final write)")
    ctx.model_check("CliFileMC", ctx.scale("CliFileMC.cfg", "CliFileMCdeep.cfg"))
    ctx.expect_violation("CliFileMC", "CliFileMut.cfg", "output opened before the result is known")
    rng = ctx.rng
    pil = importlib.util.find_spec("PIL") is not None
    hists = {json.dumps(g["hist"], sort_keys=True): g["hist"] for g in ctx.generate("CliFileMC", "CliFileGen.cfg", count=False)}
    hists = [hists[k] for k in sorted(hists)] * ctx.scale(2, 6)
    single = sorted({json.dumps(c, sort_keys=True) for h in hists for c in h})
    for _ in range(ctx.scale(60, 1500)):
        hists.append([json.loads(rng.choice(single)) for _ in range(rng.choice([3, 4, 6]))])
    files = lv.encode_files(ctx, [lv.rand_file(rng) for _ in range(ctx.scale(120, 800))])
    whole = [f for f in files if len(f) < 3000]
    cuttable = [f for f in whole if f[12] and len(f) > 60]  # has regions
    cases = []
    for h in hists:
        if pil:
            h = [c for c in h if c["c"] != "convert"]
        r = rng.random()
        if r < 0.5:
            t = {"kind": "level", "bytes": rng.choice(whole)}
        elif r < 0.68:
            t = {"kind": "vars", "h": rng.randrange(3), "v": vals.rand_val(rng, 2, 14)}
        elif r < 0.85 and cuttable:
            f = rng.choice(cuttable)
            t = {"kind": "cut", "bytes": f[: rng.choice([rng.randrange(len(f)), rng.randrange(16, 60), len(f) - 1])]}
        elif r < 0.93:
            f = list(rng.choice(whole))
            how = rng.randrange(5)
            if how == 0:
                f = []
            elif how == 1:
                f[rng.randrange(6)] ^= 1
            elif how == 2:
                f[16 + rng.randrange(6)] ^= 4
            elif how == 3:
                f[6] = rng.randrange(43)
            else:
                f = [rng.randrange(256) for _ in range(rng.choice([3, 40]))]
            t = {"kind": "other", "bytes": f}
        else:
            t = {"kind": "none", "bytes": None}
        img = rng.choice([None, [], [rng.randrange(256) for _ in range(rng.choice([1, 20, 200]))]])
        cases.append({"target": t, "image": img, "cmds": h, "seed": rng.getrandbits(30)})
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(json.dumps(c, sort_keys=True))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("CliTrace", [g for g in groups if g != ("crash",)])
    good = [g for g in groups if g != ("crash",)]
    if good:
        ctx.sample([e["args"] for e in good[0]])
        ctx.sample([e["args"] for e in good[-1]])
