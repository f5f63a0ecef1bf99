"""Common machinery: TLC runner, trace judge, parallel driver, evidence and
violation reporting. Nothing in here knows about dustmaker itself."""

import json
import multiprocessing
import os
import pickle
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
CM_JAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
NCPU = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
    """Something in the machinery (not the code under test) failed."""


class CaseTimeout(BaseException):
    """A guarded call into the code under test did not return in time."""


def _alarm(_sig, _frm):
    raise CaseTimeout()


#: calls that did not return in time, over all worker processes
TIMEOUTS = multiprocessing.get_context("fork").Value("i", 0)


def patience(timeout):
    """Less and less once several calls have been cut off (each of them is
    reported already), so that a change that hangs everywhere still gets an
    answer."""
    n = TIMEOUTS.value
    return timeout if n < 8 else min(timeout, 3) if n < 40 else min(timeout, 0.3)


def observe(fn, *args, timeout=30, **kwargs):
    """Call into the code under test; every outcome becomes data.

    Returns ("ok", value) | ("exc", [mro names], message) | ("timeout",)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, patience(timeout))
    try:
        return ("ok", fn(*args, **kwargs))
    except CaseTimeout:
        with TIMEOUTS.get_lock():
            TIMEOUTS.value += 1
        return ("timeout",)
    except BaseException as exc:  # pylint: disable=broad-except
        if isinstance(exc, KeyboardInterrupt):
            raise
        return ("exc", [c.__name__ for c in type(exc).__mro__], str(exc)[:200])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        self.generated = self.distinct = 0
        # (looked for in short lines only: the pattern is quadratic in long ones)
        for line in out.splitlines():
            m = len(line) < 300 and re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
            if m:
                self.generated = int(m.group(1).replace(",", ""))
                self.distinct = int(m.group(2).replace(",", ""))
        self.json = []
        for line in out.splitlines():
            if line.startswith('"J '):
                self.json.append(json.loads(json.loads(line)[2:]))


def tlc_cmd(module, cfg, metadir, workers=1, heap="3g", extra=()):
    return [
        "java",
        "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
        "-Xmx" + heap,
        "-Xss256m",
        "-Djava.io.tmpdir=" + os.path.dirname(metadir),
        "-Dtlc2.tool.impl.Tool.cdot=true",
        "-cp",
        TLA_JAR + ":" + CM_JAR,
        "tlc2.TLC",
        "-workers",
        str(workers),
        "-nowarning",
        "-noGenerateSpecTE",
        "-metadir",
        metadir,
        "-config",
        os.path.join(SPEC, cfg),
        *extra,
        os.path.join(SPEC, module + ".tla"),
    ]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.n = 0
        self.states = self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.bad = []
        self.known = []
        self.notes = {}
        self.rules = []
        self.assumptions = []

    # ---- scale helper
    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def fresh(self, suffix=""):
        self.n += 1
        return os.path.join(self.scratch, "f%d%s" % (self.n, suffix))

    # ---- TLC
    def _popen(self, module, cfg, env, workers, heap, extra):
        meta = self.fresh(".meta")
        out = self.fresh(".out")
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        fh = open(out, "w", encoding="utf-8")
        p = subprocess.Popen(
            tlc_cmd(module, cfg, meta, workers, heap, extra),
            stdout=fh,
            stderr=subprocess.STDOUT,
            env=e,
            cwd=self.scratch,
        )
        return p, out, fh, time.time(), meta

    @staticmethod
    def _wait(h, timeout):
        p, out, fh, t0, meta = h
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -9
        fh.close()
        with open(out, encoding="utf-8", errors="replace") as f:
            text = f.read()
        shutil.rmtree(meta, ignore_errors=True)
        return TLCResult(rc, text, time.time() - t0)

    def tlc(self, module, cfg=None, env=None, workers=1, heap="6g", extra=(), timeout=850, expect=0):
        cfg = cfg or module + ".cfg"
        r = self._wait(self._popen(module, cfg, env, workers, heap, extra), timeout)
        if expect is not None and r.rc != expect:
            raise MachineryError(
                "TLC %s/%s rc=%s\n%s" % (module, cfg, r.rc, r.out[-6000:])
            )
        return r

    def model_check(self, module, cfg=None, workers=NCPU, env=None, heap="8g", timeout=800, extra=()):
        """Exhaustive check of a bounded model; must pass (design level)."""
        r = self.tlc(module, cfg, env=env, workers=workers, heap=heap, timeout=timeout, extra=extra)
        if "Model checking completed. No error has been found." not in r.out:
            raise MachineryError("no completion: " + r.out[-3000:])
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault("models", []).append(
            {
                "model": cfg or module,
                "distinct_states": r.distinct,
                "states_generated": r.generated,
                "wall_s": round(r.wall, 1),
            }
        )
        return r

    def expect_violation(self, module, cfg, what, workers=2, env=None, timeout=300):
        """A mutated model must be rejected: shows the invariant is not vacuous."""
        r = self.tlc(module, cfg, env=env, workers=workers, timeout=timeout, expect=None)
        if r.rc not in (10, 11, 12, 13):
            raise MachineryError("mutated model %s not rejected rc=%s\n%s" % (cfg, r.rc, r.out[-3000:]))
        self.notes.setdefault("mutated_models_rejected", []).append(what)

    def generate(self, module, cfg=None, env=None, workers=1, timeout=800, heap="8g", extra=(), count=True):
        """Behaviours printed by TLC (lines `J <json>`)."""
        r = self.tlc(module, cfg, env=env, workers=workers, timeout=timeout, heap=heap, extra=extra)
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        self.notes.setdefault("generators", []).append(
            {"model": cfg or module, "distinct_states": r.distinct, "printed": len(r.json), "wall_s": round(r.wall, 1)}
        )
        if not r.json:
            raise MachineryError("generator %s printed nothing\n%s" % (module, r.out[-3000:]))
        return r.json

    def judge(self, module, groups, cfg=None, env=None, shards=NCPU, timeout=850, heap="3g", show=None, prefixes=None):
        """groups: list of lists of events (dicts). Each group is one trace.
        Returns list of (group index, event, clauses). Also registers every
        failing group as a violation."""
        if not groups:
            return []
        cfg = cfg or module + ".cfg"
        eid = 0
        index = {}
        order = sorted(range(len(groups)), key=lambda g: -len(groups[g]))
        shards = max(1, min(shards, len(groups)))
        buckets = [[] for _ in range(shards)]
        weight = [0] * shards
        sizes = {}
        for gi in order:
            for ev in groups[gi]:
                eid += 1
                ev["id"] = eid
                index[eid] = (gi, ev)
            sizes[gi] = sum(len(x) for x in map(json.dumps, groups[gi]))
        for gi in sorted(order, key=lambda g: -sizes[g]):
            b = weight.index(min(weight))
            buckets[b].append(gi)
            weight[b] += sizes[gi] + 200
        fails = []
        pending = []
        for b in buckets:
            if b:
                pending.append(self._start_judge(module, cfg, [groups[g] for g in b], env, heap))
        done = 0
        while pending:
            h, gl, path = pending.pop(0)
            r = self._wait(h, timeout)
            os.unlink(path)
            for j in r.json:
                if "mismatch" in j:
                    gi, ev = index[j["mismatch"]]
                    cl = j["clauses"]
                    if any(c.startswith("harness") for c in cl):
                        raise MachineryError("harness clause %s on %s" % (cl, json.dumps(ev)[:2000]))
                    if prefixes:
                        cl = [c for c in cl if c.startswith(tuple(prefixes))]
                    if cl:
                        fails.append((gi, ev, cl, j.get("info")))
            nev = sum(map(len, gl))
            if r.rc == 0 and "No error has been found" in r.out:
                fin = [j for j in r.json if "done" in j]
                if len(fin) != 1 or fin[0]["done"] != nev:
                    raise MachineryError("judge %s did not finish: %s\n%s" % (module, fin, r.out[-3000:]))
                done += nev
                self.transitions += r.generated
                self.states += r.distinct
                continue
            # evaluation error on a trace event: that trace is not a behaviour
            # of the specification. Find it, report it, continue behind it.
            m = None
            for m in re.finditer(r"^/\\ l = (\d+)|^l = (\d+)", r.out, re.M):
                pass
            if r.rc in (-9, 1) or "Parsing or semantic analysis failed" in r.out or m is None:
                raise MachineryError("judge %s rc=%s\n%s" % (module, r.rc, r.out[-6000:]))
            at = int(m.group(1) or m.group(2))  # l of the last good state
            flat = [(k, ev) for k, g in enumerate(gl) for ev in g]
            if at > len(flat):
                raise MachineryError("judge %s rc=%s\n%s" % (module, r.rc, r.out[-6000:]))
            k, ev = flat[at - 1]
            gi, ev = index[ev["id"]]
            fails.append((gi, ev, ["not-a-behaviour"], r.out[-1500:]))
            done += sum(len(g) for g in gl[: k + 1])
            rest = gl[k + 1 :]
            if rest and len(fails) < 50:
                pending.append(self._start_judge(module, cfg, rest, env, heap))
        self.traces += len(groups)
        self.evaluations += done
        seen = set()
        for gi, ev, clauses, info in sorted(fails, key=lambda f: (f[0], f[1]["id"])):
            if gi in seen:
                continue
            seen.add(gi)
            self.violation(clauses, {"trace": show(gi) if show else groups[gi], "event": ev, "info": info})
        return fails

    def _start_judge(self, module, cfg, gl, env, heap):
        path = self.fresh(".ndjson")
        with open(path, "w", encoding="utf-8") as f:
            for g in gl:
                for ev in g:
                    f.write(json.dumps(ev, separators=(",", ":")))
                    f.write("\n")
        e = dict(env or {})
        e["TRACE_FILE"] = path
        return self._popen(module, cfg, e, 1, heap, ()), gl, path

    # ---- parallel execution of code under test
    def pmap(self, fn, items, procs=NCPU, chunk=None, case_timeout=120):
        """Run fn(item) in forked workers. A worker that dies gives ("crash",)
        for the item it was working on."""
        items = list(items)
        res = [None] * len(items)
        todo = list(range(len(items)))
        if not items:
            return res
        size = chunk or max(1, min(400, (len(items) + procs * 4 - 1) // (procs * 4)))
        queue = [todo[i : i + size] for i in range(0, len(todo), size)]
        running = []
        hung = 0
        while queue or running:
            while queue and len(running) < procs:
                idxs = queue.pop(0)
                path = self.fresh(".pkl")
                p = multiprocessing.get_context("fork").Process(
                    target=_worker, args=(fn, [items[i] for i in idxs], path, case_timeout)
                )
                p.start()
                running.append((p, idxs, path, [-1, 0.0]))
            time.sleep(0.002)
            still = []
            for p, idxs, path, seen in running:
                if p.is_alive():
                    still.append((p, idxs, path, seen))
                    now = time.time()
                    if now - seen[1] > 1:
                        grown = os.path.getsize(path) if os.path.exists(path) else 0
                        if grown != seen[0]:
                            seen[:] = [grown, now]
                        elif now - seen[1] > (case_timeout if hung < 8 else 10):
                            hung += 1
                            p.kill()
                    continue
                p.join()
                got = []
                try:
                    with open(path, "rb") as f:
                        while True:
                            got.append(pickle.load(f))
                except (EOFError, FileNotFoundError, pickle.UnpicklingError):
                    pass
                for k, (kind, val) in enumerate(got):
                    if kind == "machinery":
                        raise MachineryError("driver: " + val)
                    if kind == "codeexc":
                        self.notes.setdefault("exceptions_in_code", []).append(val[-600:])
                        val = ("crash",)
                    res[idxs[k]] = val
                if os.path.exists(path):
                    os.unlink(path)
                if len(got) < len(idxs):
                    res[idxs[len(got)]] = ("crash",)
                    rest = idxs[len(got) + 1 :]
                    if rest:
                        queue.insert(0, rest)
            running = still
        return res

    # ---- results
    def count(self, key):
        self.distinct.add(key)

    def sample(self, obj):
        if len(self.samples) < 5:
            self.samples.append(obj)

    def violation(self, clauses, detail):
        self.bad.append({"clauses": list(clauses), "detail": detail})

    def finish(self, level="model_checking"):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        kf = load_known(self.prop)
        fresh_bad = []
        for b in self.bad:
            hit = None
            for k in kf:
                if any(c in b["clauses"] for c in k["clauses"]) and k["match"] in json.dumps(b["detail"], default=str):
                    hit = k
            if hit:
                self.known.append(hit["what"])
            else:
                fresh_bad.append(b)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": "; ".join(self.rules) or "distinct generated cases",
            "samples": self.samples or [{"note": "none"}],
        }
        cov.update(self.notes)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(fresh_bad),
        }
        tmp = os.path.join(EVIDENCE, ".%s.tmp" % self.prop)
        with open(tmp, "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVIDENCE, self.prop + ".json"))
        for w in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        if fresh_bad:
            path = os.path.join("evidence", "replay", self.prop + ".json")
            with open(os.path.join(EVIDENCE, "replay", self.prop + ".json"), "w", encoding="utf-8") as f:
                json.dump(
                    {"property": self.prop, "seed": self.seed, "tier": self.tier, "count": len(fresh_bad), "violations": fresh_bad[:20]},
                    f,
                    indent=1,
                    default=str,
                )
            for b in fresh_bad[:5]:
                print("  clauses=%s detail=%s" % (b["clauses"], json.dumps(b["detail"], default=str)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print(
            "OK property=%s tier=%s states=%d transitions=%d traces=%d evaluations=%d wall=%.1fs"
            % (self.prop, self.tier, self.states, self.transitions, self.traces, self.evaluations, wall)
        )
        return 0


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def _worker(fn, items, path, case_timeout):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass
    with open(path, "ab") as f:
        for it in items:
            try:
                val = ("ok", fn(it))
            except BaseException as exc:  # pylint: disable=broad-except
                frames = traceback.extract_tb(exc.__traceback__)
                code = os.path.join(os.path.realpath(REPO), "dustmaker") + os.sep
                misuse = (ValueError, TypeError, AttributeError, LookupError, ArithmeticError, AssertionError)
                if isinstance(exc, misuse) or any(os.path.realpath(fr.filename).startswith(code) for fr in frames):
                    # raised by the code under test, or by using what it handed out,
                    # where the driver relies on it
                    val = ("codeexc", traceback.format_exc()[-3000:])
                else:
                    val = ("machinery", traceback.format_exc()[-3000:])
            pickle.dump(val, f)
            f.flush()
    os._exit(0)


def selftest():
    """Parse every module of the specification with SANY."""
    mods = sorted(f for f in os.listdir(SPEC) if f.endswith(".tla"))
    r = subprocess.run(["java", "-cp", TLA_JAR + ":" + CM_JAR, "tla2sany.SANY"] + mods,
                       cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, check=False)
    bad = r.returncode != 0 or any(x in r.stdout for x in ("*** Errors", "Could not parse", "Fatal errors", "Abort messages"))
    print(r.stdout[-3000:] if bad else "%d modules parsed" % len(mods))
    return 2 if bad else 0


def main(argv):
    prop = argv[1]
    if prop == "--selftest":
        return selftest()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.path.insert(0, REPO)
    sys.setrecursionlimit(20000)
    import importlib

    ctx = Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module("harness." + prop.lower())
        try:
            mod.run(ctx)
            return ctx.finish()
        except MachineryError as exc:
            if ctx.bad:
                # violations already established on real executions stand
                sys.stderr.write("machinery trouble after violations: %s\n" % str(exc)[-2000:])
                return ctx.finish()
            sys.stderr.write("MACHINERY FAILURE %s: %s\n" % (prop, exc))
            return 2
        except Exception as exc:  # pylint: disable=broad-except
            sys.stderr.write(traceback.format_exc()[-3000:])
            if ctx.bad:
                return ctx.finish()
            frames = traceback.extract_tb(exc.__traceback__)
            code = os.path.join(os.path.realpath(REPO), "dustmaker") + os.sep
            if not any(os.path.realpath(fr.filename).startswith(code) for fr in frames):
                return 2
            # raised by the code under test where the driver relies on it
            ctx.violation(["crash"], {"traceback": traceback.format_exc()[-3000:]})
            return ctx.finish()
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
