#!/usr/bin/env python3
"""mutate.py OUT N SEED [PART/PARTS] [file-regex]: random one-token changes of
/repo's code in scratch copies; those that pass the unit tests are run against
the checks that watch the changed function. One JSON line per mutant."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
MAP = [
    (r"bitio.*Reader", ["C02", "C11"]), (r"bitio.*Writer", ["C01"]), (r"bitio", ["C01", "C02"]),
    (r"dfreader.*(replay)", ["C10", "C09", "C11"]), (r"dfwriter.*(replay)", ["C09", "C10"]),
    (r"dfreader.*(variable|float|6bit|var_)", ["C03", "C04"]), (r"dfwriter.*(variable|float|6bit|var_)", ["C03", "C04"]),
    (r"dfreader", ["C05", "C08", "C07", "C11", "C10"]), (r"dfwriter.*(ex$|region|metadata)", ["C07", "C06", "C05", "C12"]), (r"dfwriter", ["C05", "C06", "C07", "C10", "C12"]),
    (r"replay", ["C09", "C10"]),
    (r"tile.*upscale", ["C17"]), (r"tile.*(transform)", ["C15", "C16"]), (r"tile.*(pack)", ["C05", "C06", "C08"]), (r"tile.*(eq|hash|vals)", ["C24"]),
    (r"tile", ["C27", "C24", "C18", "C19", "C15", "C17", "C05"]),
    (r"level.*(visib)", ["C18"]), (r"level.*(caps|edge)", ["C19", "C18"]), (r"level.*(remap|merge|max_id|gen_id|add_)", ["C13", "C12"]),
    (r"level.*(upscale)", ["C17", "C26"]), (r"level.*(transform|flip|rotate|translate)", ["C16", "C26"]), (r"level", ["C18", "C19", "C23", "C13", "C16", "C12", "C05"]),
    (r"entity.*(remap)", ["C13"]), (r"entity.*transform", ["C16", "C28"]), (r"entity.*Fog", ["C25", "C23"]), (r"entity.*bind", ["C23"]), (r"entity", ["C28", "C23", "C06", "C05", "C16", "C13"]),
    (r"prop", ["C16", "C05"]), (r"transform\.py.*(Transform)", ["C26"]), (r"cmd/transform", ["C26"]), (r"dustmaker/transform", ["C14", "C16", "C15"]),
    (r"variable\.py.*Array", ["C23", "C24"]), (r"dustmaker/variable\.py", ["C24", "C23", "C03"]),
    (r"cmd/variables", ["C20", "C21"]), (r"cmd/thumbnail", ["C21"]), (r"cmd/save", ["C22"]), (r"cmd/", ["C21", "C26", "C22"]),
]


def targets(f, qual):
    s = "dustmaker/%s:%s" % (f, qual)
    for pat, cs in MAP:
        if re.search(pat, s):
            return cs
    return []


SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "+", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|", ast.LShift: ">>", ast.RShift: "<<"}


def mutants(path, rel):
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()) + 1)
    raw = src.encode()

    def pos(l, c):
        return starts[l - 1] + c

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []

    def add(n, new, what, qual):
        a, b = seg(n)
        out.append((rel, qual, n.lineno, what, a, b, new))

    def text(n):
        a, b = seg(n)
        return raw[a:b].decode()

    def walk(n, qual, in_ann=False):
        for ch in ast.iter_child_nodes(n):
            q = qual
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                q = (qual + "." if qual else "") + ch.name
            if isinstance(n, ast.AnnAssign) and ch is n.annotation or isinstance(n, ast.arg) or isinstance(n, ast.FunctionDef) and ch is n.returns:
                continue
            if isinstance(ch, ast.FunctionDef) and ch.name in ("__repr__", "setup_parser"):
                continue
            if isinstance(ch, ast.Compare) and len(ch.ops) == 1:
                op = SWAP[type(ch.ops[0])]
                add(ch, "(%s %s %s)" % (text(ch.left), op, text(ch.comparators[0])), "cmp->" + op, q)
            elif isinstance(ch, ast.Compare):
                for i, o in enumerate(ch.ops):
                    parts = [text(ch.left)]
                    for j, (o2, c2) in enumerate(zip(ch.ops, ch.comparators)):
                        sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}.get(type(o2))
                        parts += [SWAP[type(o2)] if i == j else sym, text(c2)]
                    if None not in parts:
                        add(ch, " ".join(parts), "chain", q)
            elif isinstance(ch, ast.BinOp) and type(ch.op) in BIN and not (isinstance(ch.left, ast.Constant) and isinstance(ch.left.value, str)):
                add(ch, "(%s %s %s)" % (text(ch.left), BIN[type(ch.op)], text(ch.right)), "bin->" + BIN[type(ch.op)], q)
            elif isinstance(ch, ast.Constant) and isinstance(ch.value, bool):
                add(ch, str(not ch.value), "bool", q)
            elif isinstance(ch, ast.Constant) and isinstance(ch.value, int):
                add(ch, str(ch.value + 1), "int+1", q)
                add(ch, "(%d)" % (ch.value - 1), "int-1", q)
            elif isinstance(ch, ast.Constant) and isinstance(ch.value, float):
                add(ch, repr(ch.value + 0.5), "float", q)
            elif isinstance(ch, ast.BoolOp):
                o = " or " if isinstance(ch.op, ast.And) else " and "
                add(ch, "(" + o.join(text(v) for v in ch.values) + ")", "boolop", q)
            elif isinstance(ch, ast.UnaryOp) and isinstance(ch.op, (ast.Not, ast.USub)) and not isinstance(ch.operand, ast.Constant):
                add(ch, "(" + text(ch.operand) + ")", "unary", q)
            elif isinstance(ch, (ast.If, ast.While)) and not isinstance(ch.test, ast.Constant):
                add(ch.test, "True", "if-true", q) if isinstance(ch, ast.If) else None
                add(ch.test, "False", "cond-false", q)
            elif isinstance(ch, ast.IfExp):
                add(ch, "(" + text(ch.body) + ")", "ifexp-a", q)
                add(ch, "(" + text(ch.orelse) + ")", "ifexp-b", q)
            elif isinstance(ch, (ast.Expr, ast.Assign, ast.AugAssign)) and qual and not (isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant)):
                if isinstance(ch, (ast.AugAssign,)) or isinstance(ch, ast.Expr) or (isinstance(ch, ast.Assign) and isinstance(ch.targets[0], (ast.Attribute, ast.Subscript))):
                    add(ch, "pass", "delete", q)
            elif isinstance(ch, (ast.Continue, ast.Break)):
                add(ch, "pass", "no-" + type(ch).__name__.lower(), q)
            if isinstance(ch, ast.FunctionDef) and isinstance(n, ast.ClassDef) is None:
                pass
            walk(ch, q)

    walk(tree, "")
    return raw, out


def run(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, check=False)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -99, "timeout"


def main():
    outp, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    part, parts = map(int, (sys.argv[4] if len(sys.argv) > 4 else "0/1").split("/"))
    only = sys.argv[5] if len(sys.argv) > 5 else "."
    allm, raws = [], {}
    for d, _ds, fs in sorted(os.walk("/repo/dustmaker")):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), "/repo/dustmaker")
            if f.endswith(".py") and f not in ("__init__.py", "__main__.py", "exceptions.py", "common.py", "main.py"):
                raws[rel], ms = mutants(os.path.join(d, f), rel)
                allm += [m for m in ms if re.search(only, "%s:%s" % (m[0], m[1]))]
    rng = random.Random(seed)
    rng.shuffle(allm)
    print(len(allm), "candidates")
    top = tempfile.mkdtemp(prefix="mutw-")
    repo = os.path.join(top, "repo")
    shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git"))
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1")
    try:
        for k, (rel, qual, line, what, a, b, new) in enumerate(allm[:n]):
            if k % parts != part:
                continue
            raw = raws[rel]
            path = os.path.join(repo, "dustmaker", rel)
            mut = raw[:a] + new.encode() + raw[b:]
            rec = {"file": rel, "fn": qual, "line": line, "what": what, "old": raw[a:b].decode()[:120], "new": new[:120]}
            try:
                compile(mut, rel, "exec")
            except (SyntaxError, ValueError):
                continue
            with open(path, "wb") as f:
                f.write(mut)
            try:
                rc, out = run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "tests"], repo, env, 60)
                if rc:
                    rec["result"] = "unit"
                else:
                    rec["result"] = "MISSED"
                    rec["by"] = []
                    for p in targets(rel, qual):
                        rc, out = run([sys.executable, os.path.join(HERE, "check.py"), p], HERE, dict(env, VERIF_REPO=repo, VERIF_EVIDENCE=top), 900)
                        if rc == 1:
                            rec["result"] = "caught"
                            rec["by"] = p
                            break
                        if rc:
                            rec["result"] = "BROKEN"
                            rec["by"] = p
                            rec["out"] = out[-1500:]
                            break
                    else:
                        rec["by"] = targets(rel, qual)
            finally:
                with open(path, "wb") as f:
                    f.write(raw)
            with open(outp, "a", encoding="utf-8") as f:
                f.write(json.dumps(rec) + "\n")
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    main()
