"""C11: reading a cut-off file terminates; a cut replay is an error."""
import io
import resource

from . import levels as lv
from . import replays as rp
from . import vals
from .core import observe

LIMIT = 8  # seconds per read; a complete read of these files takes milliseconds


def reader(kind, data, full):
    from dustmaker.dfreader import DFReader, read_level

    if kind == "level":
        return lambda: read_level(data)
    if kind == "level_ex":
        def go():
            rd = DFReader(io.BytesIO(data))
            _level, offs = rd.read_level_ex()
            rd.read_bytes(offs[-1])
        return go
    if kind == "vars":
        return lambda: DFReader(io.BytesIO(data)).read_var_file(b"DF_STA")
    if kind == "replay_known":
        return lambda: DFReader(io.BytesIO(data)).read_replay(known_length=full)
    return lambda: DFReader(io.BytesIO(data)).read_replay()


def do_cuts(c):
    kind, data = c["kind"], bytes(c["bytes"])
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    cuts = range(len(data) + 1)
    runs = []
    for cut in cuts:
        res = observe(reader(kind, data[:cut], len(data)), timeout=LIMIT)
        if res[0] == "ok":
            o = "ok"
        elif res[0] == "exc" and "MemoryError" not in res[1]:
            o = "error"
        else:
            o = "no-end"
        if runs and runs[-1][2] == o:
            runs[-1][1] = cut
        else:
            runs.append([cut, cut, o])
        if o == "no-end":
            break
    return [{"op": "cuts", "kind": "replay" if kind.startswith("replay") else kind, "how": kind, "len": len(data), "runs": runs}]


def run(ctx):
    from dustmaker.dfwriter import DFWriter

    ctx.rules.append("every byte prefix (0..length) of library-written and specification-encoded levels (all revisions), variable files and replays; non-trivial: distinct file")
    ctx.model_check("Truncation", ctx.scale("Truncation.cfg", "TruncationDeep.cfg"))
    ctx.expect_violation("Truncation", "TruncationMut.cfg", "a self-terminating block polled for more data at the end of the stream")
    rng = ctx.rng
    cases = []

    def add(kind, b):
        cases.append({"kind": kind, "bytes": list(b)})

    n = ctx.scale(60, 500)
    for b in lv.encode_files(ctx, [lv.rand_file(rng) for _ in range(n)]):
        add(rng.choice(["level", "level", "level_ex"]), b)
    for b in rp.encode(ctx, [rp.rand_file(rng) for _ in range(n)]):
        add(rng.choice(["replay", "replay", "replay_known"]), b)
    for _ in range(n):
        res = lv.write_level(lv.build(lv.rand_content(rng)))
        if res[0] == "ok":
            add(rng.choice(["level", "level_ex"]), res[1])
        for kind in ("vars", "replay"):
            buf = io.BytesIO()

            def go():
                with DFWriter(buf, noclose=True) as w:
                    if kind == "vars":
                        w.write_var_file(b"DF_STA", vals.build(vals.rand_val(rng, 3, 14)).value)
                    else:
                        w.write_replay(rp.build(rp.rand_replay(rng)))

            if observe(go)[0] == "ok":
                add(rng.choice([kind, kind + "_known"]) if kind == "replay" else kind, buf.getvalue())
    groups = ctx.pmap(do_cuts, cases, chunk=4)
    for c, g in zip(cases, groups):
        ctx.count(repr(c))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.notes["prefixes_read"] = sum(len(c["bytes"]) + 1 for c in cases)
    ctx.judge("TruncTrace", [g for g in groups if g != ("crash",)], show=lambda i: {"kind": cases[i]["kind"], "bytes": cases[i]["bytes"], "runs": groups[i][0]["runs"]})
    ctx.sample({"kind": cases[0]["kind"], "runs": groups[0][0]["runs"]})
