"""C07: metadata edits keep region data; files at any offset, back to back."""
import io

from . import c05
from . import levels as lv
from . import vals
from .core import observe


def meta_case(rng, source=None, mod=False):
    """an edit; of a given file (in a level of type dustmod: mod) or of a fresh level"""
    c = {"c": lv.rand_content(rng, rng.choice([0, 1, 3, 6]))} if source is None else {"bytes": source}
    c["vars"] = rng.choice([None, lv.rand_vars(rng), lv.rand_vars(rng), {"t": 14, "kv": []}])
    if source is not None and c["vars"] is not None:
        # the level type selects the prop encoding of old segments: keep it
        c["vars"] = lv.rand_vars(rng, mod=mod)
    c["sshot"] = rng.choice([None, [], [rng.randrange(256) for _ in range(rng.choice([1, 5, 100]))]])
    c["chunks"] = rng.choice([0, 1, 3, 4, 7])
    c["off"] = rng.choice([0, 0, 1, 9])
    c["how"] = rng.choice(["ex", "ex", "only"])
    return c


def do_meta(c):
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter

    if "c" in c:
        res = lv.write_level(lv.build(c["c"]))
        if res[0] != "ok":
            return [{"op": "rt", "c": c["c"], "c2": c["c"], "out": lv.oc(res), "rout": "none", "r": lv.EMPTY, "bytes": [], "blobs": [], "wf": False}]
        b0 = res[1]
    else:
        b0 = bytes(c["bytes"])
    st = {}

    def go():
        rd = DFReader(io.BytesIO(b"\xEE" * c["off"] + b0))
        rd.read_bytes(c["off"])
        level, offs = rd.read_level_ex()
        st["offs"] = [int(x) for x in offs]
        data = rd.read_bytes(offs[-1])
        if c["how"] == "only":
            rd2 = DFReader(io.BytesIO(b0))
            level = rd2.read_level(metadata_only=True)
        if c["vars"] is not None:
            level.variables = vals.build(c["vars"]).value
        if c["sshot"] is not None:
            level.sshot = bytes(c["sshot"])
        st["vars"], st["sshot"] = vals.projmap(level.variables), list(level.sshot)
        if c["chunks"]:
            k = max(1, len(data) // c["chunks"])
            data = [data[i : i + k] for i in range(0, len(data), k)]
            if c["chunks"] > 1:
                # in pieces, some of them empty
                data = [b""] + data[:1] + [b"", b""] + data[1:] + [b""]
                if c["chunks"] > 3:
                    data = iter(data)
        buf = io.BytesIO()
        with DFWriter(buf, noclose=True) as w:
            w.write_level_ex(level, offs, data)
        return buf.getvalue()

    res = observe(go)
    e = {"op": "meta", "b0": list(b0), "b1": [], "blobs": [], "out": lv.oc(res), "rout": "none", "r": lv.EMPTY,
         "offs": st.get("offs", []), "vars": st.get("vars", lv.EMPTY["vars"]), "sshot": st.get("sshot", [])}
    # the edit must not touch what was not asked for
    if c["vars"] is not None:
        e["vars"] = c["vars"]
    if c["sshot"] is not None:
        e["sshot"] = c["sshot"]
    if res[0] == "ok":
        e["b1"], e["blobs"] = list(res[1]), lv.blobs(res[1])
        r = lv.read_level(res[1])
        e["rout"] = lv.oc(r)
        if r[0] == "ok":
            e["r"] = lv.content(r[1])
    return [e]


def do_len(c):
    """region payload of another length than the directory says"""
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter

    res = lv.write_level(lv.build(c["c"]))
    if res[0] != "ok":
        return [{"op": "len", "given": 0, "declared": 0, "out": lv.oc(res)}]
    rd = DFReader(io.BytesIO(res[1]))
    level, offs = rd.read_level_ex()
    data = rd.read_bytes(offs[-1])
    d = c["delta"]
    if d < 0:
        data = data[:d] if len(data) + d >= 0 else b""
    else:
        data = data + bytes(d)

    def go():
        with DFWriter(io.BytesIO(), noclose=True) as w:
            w.write_level_ex(level, offs, [data[:3], data[3:]] if c["iter"] else data)

    return [{"op": "len", "given": len(data), "declared": offs[-1], "out": lv.oc(observe(go))}]


def do_seq(c):
    """files of several kinds written one after another into a stream with
    earlier content, then read back in order"""
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter

    from . import replays

    def writer(it):
        kind, v = it
        if kind == "level":
            level = lv.build(v)
            return lambda w: w.write_level(level)
        if kind == "vars":
            vs = vals.build(v).value
            return lambda w: w.write_var_file(b"DF_STA", vs)
        rep = replays.build(v)
        return lambda w: w.write_replay(rep)

    def reader(it):
        kind = it[0]
        if kind == "level":
            return lambda r: lv.content(r.read_level())
        if kind == "vars":
            def rv(r):
                out = vals.projmap(r.read_var_file(b"DF_STA"))
                r.align()
                return out
            return rv
        return lambda r: replays.proj(r.read_replay())

    def alone():
        outs = []
        for it in c["items"]:
            buf = io.BytesIO()
            with DFWriter(buf, noclose=True) as w:
                writer(it)(w)
            outs.append(list(buf.getvalue()))
        return outs

    def together():
        buf = io.BytesIO(bytes(c["prefix"]) + bytes([0xAB] * c["over"]))
        buf.seek(len(c["prefix"]))
        with DFWriter(buf, noclose=True) as w:
            for it in c["items"]:
                writer(it)(w)
        return buf.getvalue()

    a, t = observe(alone), observe(together)
    e = {"op": "seq", "out": lv.oc(a) if a[0] != "ok" else lv.oc(t), "rout": "none", "prefix": c["prefix"], "suffix": [], "all": [],
         "alone": a[1] if a[0] == "ok" else [], "same": False}
    if e["out"] == "ok":
        e["all"] = list(t[1])
        total = len(c["prefix"]) + sum(map(len, a[1]))
        e["suffix"] = [0xAB] * max(0, len(c["prefix"]) + c["over"] - total)
        res = observe(lambda: [reader(it)(DFReader(io.BytesIO(bytes(b)))) for it, b in zip(c["items"], a[1])])

        def readall():
            rd = DFReader(io.BytesIO(t[1]))
            rd.read_bytes(len(c["prefix"]))
            return [reader(it)(rd) for it in c["items"]]

        both = observe(readall)
        e["rout"] = lv.oc(res) if res[0] != "ok" else lv.oc(both)
        e["same"] = e["rout"] == "ok" and res[1] == both[1]
    return [e]


def seq_case(rng):
    from . import replays

    items = []
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(["level", "level", "vars", "replay"])
        items.append((kind, lv.rand_content(rng, rng.choice([0, 1, 3])) if kind == "level"
                      else vals.rand_val(rng, 2, 14) if kind == "vars" else replays.rand_replay(rng)))
    return {"items": items, "prefix": [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 40]))], "over": rng.choice([0, 0, 50, 5000])}


def run(ctx):
    ctx.rules.append("metadata edits of library-written and specification-encoded files (all revisions) judged byte-wise against the original; payloads of wrong length; levels, variable files and replays written back to back at byte offsets and over old content; non-trivial: distinct case")
    ctx.model_check("LevelFileMC", "LevelFileMC.cfg")
    rng = ctx.rng
    absfiles = [lv.rand_file(rng) for _ in range(ctx.scale(80, 600))]
    files = lv.encode_files(ctx, absfiles)
    cases = [("meta", meta_case(rng)) for _ in range(ctx.scale(160, 2000))]
    for big in c05.bigs(rng):
        c = meta_case(rng)
        c["c"] = lv.canon(big)
        if len(big["sshot"]) < 1000 and len(big["tiles"]) < 3:
            c["sshot"] = list(rng.randbytes(rng.choice([65535, 65536, 70000])))
        cases.append(("meta", c))
    cases += [("meta", meta_case(rng, b, any(e["k"] == vals.key("level_type") and e["v"] == {"t": 2, "n": 6} for e in f["vars"]["kv"])))
              for f, b in zip(absfiles, files)]
    for _ in range(ctx.scale(60, 500)):
        cases.append(("len", {"c": lv.rand_content(rng, rng.choice([0, 1, 3])), "delta": rng.choice([0, 1, -1, 2, -5, 17, 256]), "iter": rng.random() < 0.5}))
    cases += [("seq", seq_case(rng)) for _ in range(ctx.scale(150, 2000))]
    groups = ctx.pmap(dispatch, cases)
    for c, g in zip(cases, groups):
        ctx.count(repr(c))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("LevelTrace", [g for g in groups if g != ("crash",)], prefixes=["meta-"])
    ctx.sample(cases[0])


def dispatch(c):
    return {"meta": do_meta, "len": do_len, "seq": do_seq}[c[0]](c[1])
