"""C20: the JSON view of variables is faithful."""
import io
import json

from . import jsondoc as J
from . import levels as L
from . import vals
from .cli import Scratch
from .core import observe
from .varcases import oc

NONE = {"t": -1, "why": "none"}


def text(obj, indent):
    return json.loads(json.dumps(obj, indent=indent))


def do_conv(c):
    from dustmaker.cmd.variables import json_to_variables, variables_to_json

    var = vals.build(c["v"])
    e = {"op": "conv", "v": c["v"], "schema": {"s": "bad"}, "doc": {"j": "bad"}, "rout": "none", "r": NONE, "v1": NONE}
    res = observe(variables_to_json, var)
    e["out"] = oc(res)
    if res[0] == "ok":
        e["v1"] = vals.proj(var)
        got = observe(lambda: [text(x, c["indent"]) for x in res[1]])
        if got[0] != "ok" or len(got[1]) != 2:
            e["out"] = "not JSON"
            return [e]
        schema, doc = got[1]
        e["schema"], e["doc"] = J.proj_schema(schema), J.proj_doc(doc)
        back = observe(json_to_variables, schema, doc)
        e["rout"] = oc(back)
        if back[0] == "ok":
            e["r"] = vals.proj(back[1])
    return [e]


def do_doc(c):
    from dustmaker.cmd.variables import json_to_variables

    back = observe(json_to_variables, text(J.to_schema(c["schema"]), 1), text(J.to_doc(c["doc"]), 1))
    return [{"op": "doc", "schema": c["schema"], "doc": c["doc"], "rout": oc(back), "r": vals.proj(back[1]) if back[0] == "ok" else NONE}]


HEADERS = [b"DF_STA", b"DF_CFG", b"DF_FOG"]


def read_vars(kind, data):
    from dustmaker.dfreader import DFReader

    def go():
        rd = DFReader(io.BytesIO(data))
        return (rd.read_level().variables if kind == 3 else rd.read_var_file(HEADERS[kind]))

    res = observe(go)
    return oc(res), vals.projmap(res[1]) if res[0] == "ok" and isinstance(res[1], dict) else NONE


def do_cli(c):
    from dustmaker.dfwriter import DFWriter
    from dustmaker.level import Level
    from dustmaker.tile import Tile

    variables = vals.build(c["v"]).value

    def make():
        buf = io.BytesIO()
        with DFWriter(buf, noclose=True) as w:
            if c["kind"] == 3:
                level = Level()
                level.variables = variables
                if c["tiles"]:
                    level.tiles[(19, 3, 4)] = Tile()
                w.write_level(level)
            else:
                w.write_var_file(HEADERS[c["kind"]], variables)
        return buf.getvalue()

    made = observe(make)
    e = {"op": "cli", "v": c["v"], "out": "no file", "kept": False, "schema": {"s": "bad"}, "doc": {"j": "bad"}, "uout": "none", "rout": "none", "r": NONE}
    if made[0] != "ok":
        return [e]
    with Scratch() as s:
        s.put("obj", made[1])
        rc, out = s.run("variables", "obj", *([] if c["indent"] == 4 else ["--indent=%d" % c["indent"]]))
        e["kept"] = s.get("obj") == made[1] and s.names() == ["obj"]
        e["out"] = "ok" if rc == 0 else "rc%d" % rc
        if rc == 0:
            got = observe(json.loads, out)
            if got[0] == "ok" and isinstance(got[1], dict):
                e["schema"], e["doc"] = J.proj_schema(got[1].get("schema", 0)), J.proj_doc(got[1].get("vars", None))
            s.put("new.json", out)
            rc, _ = s.run("variables", "obj", "new.json")
            e["uout"] = "ok" if rc == 0 else "rc%d" % rc
            e["rout"], e["r"] = read_vars(c["kind"], s.get("obj") or b"")
    return [e]


def dispatch(c):
    return {"conv": do_conv, "doc": do_doc, "cli": do_cli}[c["op"]](c)


def run(ctx):
    ctx.rules.append("every small tree of JsonDocMC (structs and arrays two to three levels deep), random trees with random and with consistent element types, hand-made documents, and command line round trips of levels and variable files; non-trivial: distinct case")
    ctx.model_check("JsonDocMC", ctx.scale("JsonDocMC.cfg", "JsonDocMCdeep.cfg"))
    ctx.expect_violation("JsonDocMC", "JsonDocMut.cfg", "schema of an array taken from its first element")
    rng = ctx.rng
    gen = ctx.generate("JsonDocMC", "JsonDocGen.cfg", count=False)
    cases = [{"op": "conv", "v": g["v"], "indent": rng.choice([None, 1])} for g in gen[:: ctx.scale(4, 1)]]
    for i in range(ctx.scale(2500, 25000)):
        v = vals.rand_val(rng, 4, rng.choice([14, 15, None])) if i % 2 else J.rand_value(rng, J.rand_schema(rng, 4, i % 4 == 0))
        cases.append({"op": "conv", "v": v, "indent": rng.choice([None, 0, 4])})
    for _ in range(ctx.scale(3000, 30000)):
        cases.append({"op": "conv", "v": J.rand_clash(rng, 3, rng.choice([14, 15, 15])), "indent": None})
    for _ in range(ctx.scale(800, 8000)):
        s = J.rand_schema(rng, 4, rng.random() < 0.5)
        cases.append({"op": "doc", "schema": s, "doc": J.doc_of(J.rand_value(rng, s))})
    for i in range(ctx.scale(160, 1600)):
        v = vals.rand_val(rng, 2, 14) if i % 5 == 0 else J.rand_value(rng, J.rand_schema(rng, 3, True))
        cases.append({"op": "cli", "v": v, "kind": i % 4, "indent": rng.choice([0, 4, 2]), "tiles": i % 8 < 4})
    for s in ([], [0], list(range(256)), [195, 169], [237, 160, 128], [92, 117, 100, 56, 48, 48], [239, 187, 191]):
        v = {"t": 14, "kv": [{"k": [97], "v": {"t": 5, "s": s}}, {"k": [98], "v": {"t": 15, "et": 5, "a": [{"t": 5, "s": s}] * 2}}]}
        cases += [{"op": "conv", "v": v, "indent": None}] + [{"op": "cli", "v": v, "kind": k, "indent": 4, "tiles": True} for k in range(4)]
    rng.shuffle(cases)
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(json.dumps(c, sort_keys=True))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("JsonTrace", [g for g in groups if g != ("crash",)])
    ctx.sample(cases[0])
    ctx.sample(next(c for c in cases if c["op"] == "cli"))
