"""C29: readers and writers own their stream exactly as documented."""
import gc
import io
import json
import os
import random
import tempfile

from .bits import NonSeekable, WriteOnly, from_bits, natural
from .core import observe


class Body(Exception):
    """raised inside a with block"""


class Memory(io.BytesIO):
    """remembers its content when it is closed"""

    last = None

    def close(self):
        if not self.closed:
            self.last = self.getvalue()
        super().close()


class RawPipe(io.RawIOBase):
    """an unbuffered stream that can only be written"""

    def __init__(self):
        self.buf = bytearray()

    def writable(self):
        return True

    def write(self, b):
        self.buf += bytes(b)
        return len(b)


class Broken(io.BufferedIOBase):
    """a full disk"""

    def writable(self):
        return True

    def write(self, _b):
        raise OSError("no space left on device")


class TallyIn(NonSeekable):
    """cannot seek but knows its position"""

    def tell(self):
        return self._io.tell()


class TallyOut(WriteOnly):
    """cannot seek but knows its position"""

    def tell(self):
        return len(self.buf)


class Bare:
    """reading and closing is all it can do"""

    def __init__(self, data):
        self._io = io.BytesIO(data)
        self.closed = False

    def read(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._io.read(n)

    def close(self):
        self.closed = True


class Stream:
    def __init__(self, kind, mem, writer, folder, start):
        self.kind, self.path, self.mem = kind, None, bytes(mem)
        self.far, self.got = None, b""
        if kind == "memory":
            self.raw = Memory(self.mem)
        elif kind == "pipe":
            self.raw = WriteOnly() if writer else NonSeekable(self.mem)
        elif kind == "tally":
            self.raw = TallyOut() if writer else TallyIn(self.mem)
        elif kind == "rawpipe":
            self.raw = RawPipe()
        elif kind == "bare":
            self.raw = Bare(self.mem)
        elif kind in ("ospipe", "ospipe0"):  # a pipe of the operating system
            r, w = os.pipe()
            mine, self.far = (w, r) if writer else (r, w)
            if writer:
                os.set_blocking(r, False)
            else:
                os.write(w, self.mem)
                os.close(w)
                self.far = None
            self.raw = os.fdopen(mine, "wb" if writer else "rb", 0 if kind == "ospipe0" else -1)
        elif kind == "broken":
            self.raw = Broken()
        elif kind == "named":
            self.raw = tempfile.NamedTemporaryFile(dir=folder, delete=False)
            self.path = self.raw.name
            self.raw.write(self.mem)
            self.raw.flush()
        else:
            fd, self.path = tempfile.mkstemp(dir=folder)
            os.write(fd, self.mem)
            os.close(fd)
            self.raw = open(self.path, "r+b", buffering=0 if kind == "rawfile" else -1)
        self.start = 0
        if kind in ("memory", "named", "file", "rawfile"):
            self.start = len(self.mem) if writer else start
            self.raw.seek(self.start)
        elif kind == "tally":
            self.start = len(self.mem) if writer else start
            if writer:
                self.raw.write(self.mem)
            else:
                self.raw.read(start)

    def isopen(self):
        try:
            return not self.raw.closed
        except ValueError:  # taken apart by somebody
            return False

    def content(self):
        if self.kind == "broken":
            return b""
        if self.kind == "memory":
            return self.raw.last if self.raw.closed else self.raw.getvalue()
        if self.kind in ("pipe", "rawpipe", "tally"):
            return bytes(self.raw.buf)
        if not self.raw.closed:
            self.raw.flush()
        if self.kind in ("ospipe", "ospipe0"):
            while True:
                try:
                    more = os.read(self.far, 65536)
                except BlockingIOError:
                    more = b""
                if not more:
                    return self.got
                self.got += more
        with open(self.path, "rb") as f:
            return f.read()


def run_case(c):
    from dustmaker.bitio import BitIOReader, BitIOWriter
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter

    writer = c["writer"]
    cls = {(True, False): BitIOWriter, (True, True): DFWriter, (False, False): BitIOReader, (False, True): DFReader}[writer, c["df"]]
    with tempfile.TemporaryDirectory(prefix="verif-stream-") as folder:
        st = Stream(c["kind"], c["mem"], writer, folder, c["start"])
        try:
            obj = cls(st.raw, noclose=True) if c["noclose"] else (cls(st.raw) if c["plain"] else cls(st.raw, noclose=False))
            evs = [{"op": "new", "noclose": c["noclose"], "start": st.start, "tell": natural(obj.bit_tell()), "isopen": st.isopen()}]
            bits = [b for x in c["mem"] for b in [(x >> i) & 1 for i in range(8)]]
            used = st.start * 8
            for op in c["ops"]:
                e = dict(op, writer=writer, broken=c["kind"] == "broken")
                if op["op"] == "write":
                    res = observe(obj.write, len(op["bits"]), from_bits(op["bits"]))
                elif op["op"] == "read":
                    res = observe(obj.read, op["n"])
                    e["value"] = natural(res[1]) if res[0] == "ok" else -1
                    e["want"] = from_bits(bits[used : used + op["n"]])
                    used += op["n"]
                elif op["op"] == "exit":

                    def go():
                        with obj as inner:
                            assert inner is obj

                    res = observe(go)
                elif op["op"] == "raise":

                    def go2():
                        with obj:
                            raise Body()

                    res = observe(go2)
                else:
                    res = observe(getattr(obj, op["op"]))
                e["out"] = "ok" if res[0] == "ok" else (res[1][0] if res[0] == "exc" else "timeout")
                e["isopen"] = st.isopen()
                e["data"] = list(st.content()[st.start :]) if writer and op["op"] in ("close", "exit", "raise") else []
                evs.append(e)
                if e["out"] not in ("ok", "Body") and c["kind"] != "broken":
                    break
            obj = None
            gc.collect()
            data = st.content() if writer else st.mem
            evs.append({"op": "end", "isopen": st.isopen(), "writer": writer, "broken": c["kind"] == "broken", "data": list(data[st.start :]) if writer else [], "before": data[: st.start] == st.mem[: st.start]})
            return evs
        finally:
            try:
                st.raw.close()
            except Exception:  # pylint: disable=broad-except
                pass
            if st.far is not None:
                os.close(st.far)


def run(ctx):
    ctx.rules.append("every life of at most 4 steps (thorough: a sample of those of 5) of the StreamLife model (writing, flushing, releasing, closing, leaving a with block normally and by an exception, repeatedly) on in-memory, buffered, unbuffered, temporary-file, pipe (with and without a position, and of the operating system), bare and failing streams at several start positions, and random longer ones for readers and writers; non-trivial: distinct life and stream kind")
    ctx.assumptions.append("a reader or writer that is not closed before it is dropped is not covered; nothing is read or written through it after it has been closed")
    ctx.model_check("StreamLifeMC", ctx.scale("StreamLifeMC.cfg", "StreamLifeMCdeep.cfg"))
    ctx.expect_violation("StreamLifeMC", "StreamLifeMut.cfg", "a buffer around an unbuffered stream is not emptied when the stream is kept")
    rng = ctx.rng
    gen = ctx.generate("StreamLifeMC", ctx.scale("StreamLifeGen.cfg", "StreamLifeGenDeep.cfg"), count=False)
    kinds = ["memory", "file", "rawfile", "named", "pipe", "tally", "ospipe", "ospipe0", "rawpipe"]
    rkinds = kinds[:-1] + ["bare"]
    uniq = {json.dumps(g, sort_keys=True): g for g in gen}
    cases = []
    names = sorted(uniq)
    if len(names) > 4000:
        names = rng.sample(names, 4000)
    for k in names:
        g = uniq[k]
        for kind in kinds if ctx.thorough else [rng.choice(kinds)]:
            cases.append({"kind": kind, "writer": True, "noclose": g["noclose"], "ops": g["ops"]})
        if sum(len(o.get("bits", [])) for o in g["ops"]) < 8 and not any(o["op"] == "flush" for o in g["ops"]):
            cases.append({"kind": "broken", "writer": True, "noclose": g["noclose"], "ops": g["ops"]})
        if not any(o["op"] == "flush" for o in g["ops"]):
            ops = [{"op": "read", "n": len(o["bits"])} if o["op"] == "write" else o for o in g["ops"]]
            cases.append({"kind": rng.choice(rkinds), "writer": False, "noclose": g["noclose"], "ops": ops})
    for _ in range(ctx.scale(400, 6000)):
        writer = rng.random() < 0.7
        ops = []
        for _k in range(rng.randint(0, 6)):
            if writer:
                ops.append({"op": "write", "bits": [rng.randrange(2) for _ in range(rng.choice([1, 5, 8, 13, 32, 64]))]} if rng.random() < 0.8 else {"op": rng.choice(["flush", "release"])})
            else:
                ops.append({"op": "read", "n": rng.choice([1, 5, 8, 13, 20])} if rng.random() < 0.8 else {"op": "release"})
        for _k in range(rng.choice([1, 1, 2, 3])):
            ops.append({"op": rng.choice(["close", "exit", "raise", "release"])})
        ops.append({"op": rng.choice(["close", "exit", "raise"])})
        cases.append({"kind": rng.choice(kinds if writer else rkinds), "writer": writer, "noclose": rng.random() < 0.5, "ops": ops})
    for c in cases:
        r = random.Random(rng.getrandbits(30))
        c["mem"] = [r.randrange(256) for _ in range(r.choice([0, 1, 7]) if c["writer"] else 40)]
        if c["kind"] in ("pipe", "rawpipe", "ospipe", "ospipe0", "broken") and c["writer"]:
            c["mem"] = []
        c["start"] = r.choice([0, 1, 9])
        c["df"], c["plain"] = r.random() < 0.3, r.random() < 0.5
    gc.collect()
    gc.freeze()
    groups = ctx.pmap(run_case, cases)
    gc.unfreeze()
    for c, g in zip(cases, groups):
        ctx.count(json.dumps([c["kind"], c["writer"], c["noclose"], c["ops"]], sort_keys=True))
        if g == ("crash",):
            ctx.violation(["crash"], c)
    ctx.judge("StreamTrace", [g for g in groups if g != ("crash",)])
    ctx.sample(cases[-1])
