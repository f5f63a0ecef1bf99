"""C01: bit writer against spec/BitWriter.tla."""
import io
import os

from .bits import FAR, Far, WriteOnly, byteslist, from_bits, natural, scratch_file, to_bits
from .core import observe


def apply(writer, op, far=0):
    """One operation of the specification on the real writer."""
    kind = op["op"]
    if kind == "write":
        bits = op["bits"]
        val = from_bits(bits)
        if op.get("neg"):
            val -= 1 << len(bits)
        return observe(writer.write, len(bits), val)
    if kind == "bytes":
        return observe(writer.write_bytes, bytes(op["bytes"]))
    if kind == "align":
        return observe(writer.align)
    if kind == "flush":
        return observe(writer.flush)
    if kind == "seek":
        if op["allow"]:
            return observe(writer.bit_seek, op["to"] + far, allow_unaligned=True)
        return observe(writer.bit_seek, op["to"] + far)
    if kind == "skip":
        return observe(writer.skip, op["n"])
    raise AssertionError(kind)


def outcome(res):
    if res[0] == "ok":
        return "ok"
    if res[0] == "exc":
        return "RuntimeError" if "RuntimeError" in res[1] else res[1][0]
    return res[0]


class Sink:
    """The stream underneath, of several kinds."""

    def __init__(self, kind, mem, pos, base=0):
        self.kind, self.path = kind, None
        if kind == "bytesio":
            self.raw = io.BytesIO(bytes(mem))
        elif kind == "far":
            self.raw = Far(bytes(mem), base)
        elif kind == "pipe":
            self.raw = WriteOnly()
        else:
            self.path = scratch_file(bytes(mem))
            self.raw = open(self.path, "r+b", buffering=0 if kind == "rawfile" else -1)
        if kind != "pipe":
            self.raw.seek(pos // 8 + base)

    def content(self):
        if self.kind in ("bytesio", "far"):
            return list(self.raw.getvalue())
        if self.kind == "pipe":
            return list(self.raw.buf)
        with open(self.path, "rb") as f:
            return list(f.read())

    def done(self):
        try:
            self.raw.close()
        except Exception:  # pylint: disable=broad-except
            pass
        if self.path:
            os.unlink(self.path)


def run_case(case):
    from dustmaker.bitio import BitIOWriter

    kind = case.get("kind", "bytesio")
    base = case.get("base", 0)
    sink = Sink(kind, case["mem"], case["pos"], base)
    try:
        writer = BitIOWriter(sink.raw, noclose=True)
        ev = [{"op": "new", "mem": case["mem"], "pos": case["pos"], "out": "ok",
               "tell": natural(writer.bit_tell() - 8 * base), "aligned": writer.aligned()}]
        for op in case["ops"]:
            res = apply(writer, op, 8 * base)
            e = dict(op)
            e["out"] = outcome(res)
            t = observe(writer.bit_tell)
            a = observe(writer.aligned)
            e["tell"] = natural(t[1] - 8 * base) if t[0] == "ok" and isinstance(t[1], int) else -1
            e["aligned"] = bool(a[1]) if a[0] == "ok" else False
            ev.append(e)
            if e["out"] != "ok" and e["out"] != "RuntimeError":
                break
        res = observe(writer.close)
        if kind in ("file", "rawfile"):
            observe(writer.data.flush)
        ev.append({"op": "close", "out": outcome(res), "data": sink.content()})
        return ev
    finally:
        sink.done()


def replay_generated(item):
    """A behaviour printed by TLC: compare final state."""
    ev = run_case({"mem": item["start"]["m"], "pos": item["start"]["p"], "ops": item["ops"]})
    last = ev[-2]
    fails = []
    if last["tell"] != item["pos"]:
        fails.append("position")
    if last["aligned"] != item["aligned"]:
        fails.append("aligned")
    if any(e["out"] not in ("ok", "RuntimeError") for e in ev):
        fails.append("outcome")
    if ev[-1]["data"] != item["mem"]:
        fails.append("stream-content")
    return (fails, ev if fails else None)


def random_case(rng, long=False):
    kind = rng.choice(["bytesio"] * 5 + ["far", "file", "rawfile", "pipe"])
    n = rng.choice([0, 0, 1, 3, 8, 20])
    if kind == "pipe":
        mem, pos = [], 0
    else:
        mem = [rng.choice([0, 255, rng.randrange(256)]) for _ in range(n)]
        pos = 8 * rng.randint(0, n)
    ops = []
    # a faithful local prediction is not needed; only keep "flush" away from
    # positions entered by an unaligned seek (no pending bits there).
    fresh_seek = False
    cur = pos
    for _ in range(rng.randint(1, 14)):
        r = rng.random()
        if r < 0.55:
            w = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 23, 24, 27, 31, 32, 33, 40, 63, 64, 65, 80, 128, 257])
            if long and rng.random() < 0.3:
                w = rng.choice([1000, 4096, 8191])
            v = rng.choice([0, (1 << w) - 1, 1, 1 << (w - 1), rng.getrandbits(w), rng.getrandbits(w)])
            bits = to_bits(v, w)
            neg = bits[-1] == 1 and rng.random() < 0.4
            ops.append({"op": "write", "bits": bits, "neg": neg})
            cur += w
            fresh_seek = False
        elif r < 0.7:
            b = [rng.randrange(256) for _ in range(rng.choice([300, 1025, 4097, 9000] if long else [1 if fresh_seek else 0, 1, 2, 5, 5, rng.randint(6, 140)]))]
            if b and rng.random() < 0.3:
                b[-1] = rng.choice([0, 1, 127, 128, 255])
            ops.append({"op": "bytes", "bytes": b})
            cur += 8 * len(b)
            if b:
                fresh_seek = False
        elif r < 0.78:
            ops.append({"op": "align"})
            cur = (cur + 7) // 8 * 8
            fresh_seek = False
        elif r < 0.84:
            if not fresh_seek:
                ops.append({"op": "flush"})
                cur = (cur + 7) // 8 * 8
        elif kind == "pipe":
            continue
        elif r < 0.95:
            to = rng.choice([rng.randint(0, 30), rng.randint(0, 30) * 8, max(0, cur - rng.randint(0, 20)), cur + rng.randint(0, 40)])
            allow = rng.random() < 0.6
            ops.append({"op": "seek", "to": to, "allow": allow})
            if allow or to % 8 == 0:
                cur = to
                fresh_seek = to % 8 != 0
        else:
            k = rng.choice([8, 16, (-cur) % 8, (-cur) % 8 + 24, 3])
            ops.append({"op": "skip", "n": k})
            if (cur + k) % 8 == 0:
                cur += k
                fresh_seek = False
    return {"kind": kind, "base": rng.choice(FAR) if kind == "far" else 0, "mem": mem, "pos": pos, "ops": ops}


def run(ctx):
    ctx.rules.append("every transition of the bounded BitWriter model replayed with its path; random op sequences (widths 1..80, in-memory, file, unbuffered file and pipe streams) judged step by step; non-trivial: at least one write, distinct op list")
    ctx.model_check("BitWriterMC", ctx.scale("BitWriterMC.cfg", "BitWriterMCdeep.cfg"))
    ctx.expect_violation("BitWriterMC", "BitWriterMutFlush.cfg", "flush that emits the pending byte again")
    ctx.expect_violation("BitWriterMC", "BitWriterMutSeek.cfg", "unaligned seek keeping stale bits")
    gen = ctx.generate("BitWriterMC", ctx.scale("BitWriterGen.cfg", "BitWriterGenDeep.cfg"))
    for item, res in zip(gen, ctx.pmap(replay_generated, gen)):
        ctx.evaluations += 1
        if any(o["op"] in ("write", "bytes") for o in item["ops"]):
            ctx.count(repr(item["ops"]))
        if res == ("crash",):
            ctx.violation(["crash"], item)
        elif res[0]:
            ctx.violation(res[0], {"expected": item, "observed": res[1]})
    ctx.traces += len(gen)
    cases = [random_case(ctx.rng) for _ in range(ctx.scale(1500, 12000))]
    cases += [random_case(ctx.rng, True) for _ in range(ctx.scale(24, 200))]
    groups = ctx.pmap(run_case, cases)
    for c in cases:
        if any(o["op"] in ("write", "bytes") for o in c["ops"]):
            ctx.count(repr(c["ops"]))
    for c, g in zip(cases, groups):
        if g == ("crash",):
            ctx.violation(["crash"], c)
    groups = [g for g in groups if g != ("crash",)]
    ctx.judge("BitWriterTrace", groups)
    ctx.sample(gen[len(gen) // 2])
    ctx.sample(cases[0])
