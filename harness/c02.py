"""C02: bit reader against spec/BitReader.tla."""
import io
import os

from .bits import FAR, Far, NonSeekable, byteslist, natural, scratch_file, to_bits
from .core import observe


def read_obs(e, res, n):
    if res[0] == "ok" and isinstance(res[1], int) and not isinstance(res[1], bool):
        v = res[1]
        if -(1 << n) <= v < (1 << n):
            e["bits"] = to_bits(v, n)
            e["sign"] = 1 if v < 0 else 0
        else:
            e["bits"], e["sign"] = [9], 9
    else:
        e["bits"], e["sign"] = [9], 9


def run_case(case):
    from dustmaker.bitio import BitIOReader

    kind = case.get("kind", "bytesio")
    path = None
    base = case.get("base", 0)
    if kind == "bytesio":
        raw = io.BytesIO(bytes(case["stream"]))
    elif kind == "far":
        raw = Far(bytes(case["stream"]), base)
    elif kind == "pipe":
        raw = NonSeekable(bytes(case["stream"]))
    else:
        path = scratch_file(bytes(case["stream"]))
        raw = open(path, "rb", buffering=0 if kind == "rawfile" else -1)
    try:
        start = case.get("pos", 0)
        if start or base:
            raw.seek(start // 8 + base)
        rd = BitIOReader(raw, noclose=True)
        ev = [{"op": "new", "stream": case["stream"], "pos": start, "out": "ok",
               "tell": natural(rd.bit_tell() - 8 * base), "aligned": rd.aligned()}]
        for op in case["ops"]:
            e = {k: v for k, v in op.items() if k in ("op", "n", "signed", "to")}
            k = op["op"]
            if k == "read":
                res = observe(rd.read, op["n"], True) if op["signed"] else observe(rd.read, op["n"])
                read_obs(e, res, op["n"])
            elif k == "bytes":
                res = observe(rd.read_bytes, op["n"])
                e["bytes"] = byteslist(res[1]) if res[0] == "ok" else [-1]
            elif k == "align":
                res = observe(rd.align)
            elif k == "seek":
                res = observe(rd.bit_seek, op["to"] + 8 * base)
            else:
                res = observe(rd.skip, op["n"])
            e["out"] = "ok" if res[0] == "ok" else (res[1][0] if res[0] == "exc" else res[0])
            t, a = observe(rd.bit_tell), observe(rd.aligned)
            e["tell"] = natural(t[1] - 8 * base) if t[0] == "ok" and isinstance(t[1], int) else -1
            e["aligned"] = bool(a[1]) if a[0] == "ok" else False
            ev.append(e)
            if e["out"] != "ok":
                break
        return ev
    finally:
        raw.close()
        if path:
            os.unlink(path)


def replay_generated(item):
    ev = run_case(item)[1:]
    fails = set()
    for e, o in zip(ev, item["ops"]):
        if e["out"] != "ok":
            fails.add("outcome")
        if e["tell"] != o["tell"]:
            fails.add("position")
        if o["op"] == "read" and e["bits"] != o["bits"]:
            fails.add("bits")
        if o["op"] == "read" and e["sign"] != o["sign"]:
            fails.add("sign")
        if o["op"] == "bytes" and e["bytes"] != o["bytes"]:
            fails.add("bytes")
    return (sorted(fails), ev if fails else None)


def random_case(rng, long=False):
    kind = rng.choice(["bytesio"] * 5 + ["far", "file", "rawfile", "pipe"])
    ln = rng.choice([1100, 5000, 9000] if long else [1, 2, 5, 12, 30])
    stream = [rng.choice([0, 255, 128, 1, rng.randrange(256)]) for _ in range(ln)]
    total = 8 * ln
    cur = start = 0 if kind == "pipe" else 8 * rng.randint(0, ln)
    ops = []
    for _ in range(rng.randint(2, 16)):
        r = rng.random()
        if r < 0.6:
            n = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 24, 31, 32, 33, 64, 100, 128])
            if long and rng.random() < 0.3:
                n = rng.choice([1000, 4096, 8191])
            if cur + n > total:
                n = total - cur
            if n < 1:
                continue
            ops.append({"op": "read", "n": n, "signed": rng.random() < 0.5})
            cur += n
        elif r < 0.75:
            n = rng.choice([1025, 4097, 300] if long else [0, 1, 1, 2, 3])
            if cur + 8 * n > total:
                continue
            ops.append({"op": "bytes", "n": n})
            cur += 8 * n
        elif r < 0.85:
            ops.append({"op": "align"})
            cur = (cur + 7) // 8 * 8
        elif kind == "pipe":
            continue
        elif r < 0.95:
            to = rng.randint(0, total)
            ops.append({"op": "seek", "to": to})
            cur = to
        else:
            n = rng.randint(-cur, total - cur)
            ops.append({"op": "skip", "n": n})
            cur += n
    return {"kind": kind, "base": rng.choice(FAR) if kind == "far" else 0, "stream": stream, "pos": start, "ops": ops}


def run(ctx):
    ctx.rules.append("every transition of the bounded BitReader model replayed with its path; random op sequences (widths 1..100, signed and unsigned, in-memory, file and pipe streams) judged step by step; non-trivial: at least one read, distinct (stream, ops)")
    ctx.model_check("BitReaderMC", ctx.scale("BitReaderMC.cfg", "BitReaderMCdeep.cfg"))
    ctx.expect_violation("BitReaderMC", "BitReaderMut.cfg", "align that forgets the unread byte after an unaligned seek")
    gen = ctx.generate("BitReaderMC", ctx.scale("BitReaderGen.cfg", "BitReaderGenDeep.cfg"))
    for item, res in zip(gen, ctx.pmap(replay_generated, gen)):
        ctx.evaluations += 1
        if any(o["op"] in ("read", "bytes") for o in item["ops"]):
            ctx.count(repr(item))
        if res == ("crash",):
            ctx.violation(["crash"], item)
        elif res[0]:
            ctx.violation(res[0], {"expected": item, "observed": res[1]})
    ctx.traces += len(gen)
    cases = [random_case(ctx.rng) for _ in range(ctx.scale(1500, 12000))]
    cases += [random_case(ctx.rng, True) for _ in range(ctx.scale(24, 200))]
    groups = ctx.pmap(run_case, cases)
    for c, g in zip(cases, groups):
        ctx.count(repr(c))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("BitReaderTrace", [g for g in groups if g != ("crash",)])
    ctx.sample(gen[len(gen) // 2])
    ctx.sample(cases[0])
