"""Mutation analysis: mutate.py FILE.py|FILE.pyx [...] > survivors are reported in OUT

  J=8 OUT=/tmp/mut.jsonl PER=2 SEED=0 python tools/mutate.py ok.py uk.py

Small edits of the code under test (comparisons, operators, constants, deleted
statements, negated conditions, dropped keyword arguments), at most PER per
line, each judged by shards of the checks that look at the file.  A mutant that
no check notices is either equivalent or a gap: it has to be looked at."""
import ast
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
           OMP_NUM_THREADS="1", HYPOTHESIS_STORAGE_DIRECTORY="/nonexistent-hypothesis")
ORDER = {
    "ok.py": "C01 C06 C08 C25 C27 C16 C18 C14 C07 C05 C13 C17 C15 C26 C28 C11 C22 C29",
    "ok3d.py": "C02 C08 C25 C27 C16 C18 C14 C07 C05 C13 C17 C06 C26 C28 C11 C22 C29",
    "uk.py": "C03 C10 C25 C27 C16 C18 C14 C07 C05 C13 C17 C06 C26 C28 C11 C09 C22 C29",
    "uk3d.py": "C04 C10 C25 C27 C16 C18 C14 C07 C05 C13 C17 C06 C26 C28 C11 C09 C22 C29",
    "core.py": "C01 C13 C14 C15 C02 C25 C12 C03 C17 C27 C10 C26 C16 C18",
    "compat.py": "C22 C23 C25 C26 C24 C29",
    "rk.py": "C23 C22 C25 C26 C29",
    "ck.py": "C24 C25 C26 C29",
    "kriging_tools.py": "C19 C20 C21 C25 C29",
    "variogram_models.py": "C12 C13 C01",
    "compat_gstools.py": "C18 C25",
    "lib/cok.pyx": "C06 C01 C08 C28",
    "lib/variogram_models.pyx": "C06 C12 C01",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.Mod: "*", ast.FloorDiv: "*", ast.MatMult: "*"}


class Source:
    def __init__(self, text):
        self.t = text
        self.start = [0]
        for line in text.split("\n"):
            self.start.append(self.start[-1] + len(line.encode()) + 1)
        self.b = text.encode()

    def off(self, line, col):
        return self.start[line - 1] + col

    def span(self, n):
        return self.off(n.lineno, n.col_offset), self.off(n.end_lineno, n.end_col_offset)

    def text(self, a, b):
        return self.b[a:b].decode()


def mutants(text):
    """(line, description, start, end, replacement) on the encoded source."""
    s = Source(text)
    tree = ast.parse(text)
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and ast.get_docstring(n, False) is not None:
            skip.add(n.body[0])

    def add(n, d, a, b, r):
        out.append((n.lineno, d, a, b, r))

    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare):
            a, b = s.span(n.left)[1], s.span(n.comparators[0])[0]
            op = CMP[type(n.ops[0])]
            m = re.search(r"(is\s+not|not\s+in|is|in|<=|>=|==|!=|<|>)", s.text(a, b))
            if m:
                add(n, "compare %s -> %s" % (m[0], op), a + m.start(), a + m.end(), op)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = s.span(n.left)[1], s.span(n.right)[0]
            m = re.search(r"\*\*|//|[-+*/%@]", s.text(a, b))
            if m and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(n, "operator %s -> %s" % (m[0], BIN[type(n.op)]), a + m.start(), a + m.end(), BIN[type(n.op)])
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            v = n.value
            if isinstance(v, bool):
                r = str(not v)
            elif isinstance(v, int):
                r = str(v + 1)
            else:
                r = repr(v * 1.5 if v else 1.0)
            add(n, "constant %r -> %s" % (v, r), *s.span(n), r)
        elif isinstance(n, ast.BoolOp):
            a, b = s.span(n.values[0])[1], s.span(n.values[1])[0]
            m = re.search(r"\b(and|or)\b", s.text(a, b))
            if m:
                add(n, "bool " + m[0], a + m.start(), a + m.end(), "or" if m[0] == "and" else "and")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, "drop unary", s.span(n)[0], s.span(n.operand)[0], "")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            a, b = s.span(n.test)
            add(n.test, "negate condition", a, b, "(not (" + s.text(a, b) + "))")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg is None:
                    continue
                a, b = s.off(k.lineno, k.col_offset), s.span(k.value)[1]
                rest = s.text(b, s.span(n)[1])
                m = re.match(r"\s*,", rest)
                add(k, "drop keyword " + k.arg, a, b + (m.end() if m else 0), "")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.Delete)) and n not in skip:
            add(n, "delete statement", *s.span(n), "pass")
        if isinstance(n, ast.Return) and n.value is not None:
            add(n, "return None", *s.span(n), "return None")
    return out


def extents(text):
    """First and last line of the innermost simple statement or header of each line."""
    out = {}
    for n in ast.walk(ast.parse(text)):
        if isinstance(n, ast.stmt):
            end = n.body[0].lineno - 1 if hasattr(n, "body") else n.end_lineno
            for k in range(n.lineno, end + 1):
                if k not in out or out[k][1] - out[k][0] > end - n.lineno:
                    out[k] = (n.lineno, end)
    return out


def pyx_mutants(text):
    """Line based edits of Cython code."""
    out = []
    pos = 0
    for no, line in enumerate(text.split("\n"), 1):
        code = line.split("#")[0]
        if not re.match(r"\s*(cimport|import|from|cdef .*\bextern|\"\"\"|'''|def |cpdef |cdef [^=]*$)", code):
            for m in re.finditer(r"(<=|>=|==|!=|(?<![<>=!])<|(?<![->=])>(?!=))", code):
                r = {"<=": "<", "<": "<=", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}[m[0]]
                out.append((no, "compare %s -> %s" % (m[0], r), pos + m.start(), pos + m.end(), r))
            for m in re.finditer(r"(?<=[\w\])\s])([-+*/])(?=[\s\w(])(?!=)", code):
                r = {"+": "-", "-": "+", "*": "/", "/": "*"}[m[0]]
                out.append((no, "operator %s -> %s" % (m[0], r), pos + m.start(), pos + m.end(), r))
            for m in re.finditer(r"(?<![\w.])(\d+\.\d*(e-?\d+)?|\d+)(?![\w.])", code):
                v = m[0]
                r = str(int(v) + 1) if v.isdigit() else (repr(float(v) * 1.5) if float(v) else "1.0")
                out.append((no, "constant %s -> %s" % (v, r), pos + m.start(), pos + m.end(), r))
            m = re.match(r"(\s+)(\w[\w\[\], :]*\s*[-+*/]?=(?!=).*\S)\s*$", code)
            if m and not code.strip().startswith("cdef") and code.count("(") == code.count(")"):
                out.append((no, "delete statement", pos + m.start(2), pos + m.end(2), "pass"))
        pos += len(line.encode()) + 1
    return out


LINES = {}


def tests_for(f, m):
    """The tests that execute the line, the cheap ones first."""
    pick = []
    for prop in ORDER[f].split():
        t = LINES[prop]["tests"]
        names = [n for n in t if f.endswith(".pyx") or any(q[0] == f and m[5] <= q[1] <= m[6] for q in t[n]["lines"])]
        if names:
            pick.append([prop, names])
    if not pick:
        pick = [[p, list(LINES[p]["tests"])] for p in ORDER[f].split()]
    return pick


def trace(base):
    """Executed lines of every test (kept in LINESFILE)."""
    keep = os.environ.get("LINESFILE", "/tmp/lines.json")
    if os.path.exists(keep):
        LINES.update(json.load(open(keep)))
        return

    def one(prop):
        d = os.path.join(base, "t" + prop)
        os.makedirs(d)
        subprocess.run([PY, os.path.join(ROOT, "tools", "mutworker.py"), base, os.path.join(d, "out.json"), "0", "lines", prop],
                       env=ENV, capture_output=True, text=True, timeout=1500, cwd=d)
        return prop, json.load(open(os.path.join(d, "out.json")))

    with cf.ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex:
        for prop, r in ex.map(one, ["C%02d" % k for k in range(1, 30)]):
            if r["error"] or any(t["bad"] for t in r["tests"].values()):
                raise SystemExit("%s: %s" % (prop, r["error"] or "violation"))
            LINES[prop] = r
    json.dump(LINES, open(keep, "w"))


def judge(job):
    base, f, m, wave = job
    tmp = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        src = os.path.join(tmp, "src", "pykrige")
        shutil.copytree(os.path.join(base, "src", "pykrige"), src)
        p = os.path.join(src, f)
        raw = open(p, newline="").read()
        crlf = "\r\n" in raw
        b = raw.replace("\r\n", "\n").encode()
        b = b[: m[2]] + m[4].encode() + b[m[3]:]
        t = b.decode()
        open(p, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
        if f.endswith(".py"):
            try:
                compile(t, f, "exec")
            except SyntaxError:
                return f, m, "invalid", ""
        else:
            sys.path.insert(0, os.path.join(ROOT, "harness"))
            r = subprocess.run([PY, "-c", "import sys,os;sys.path.insert(0,%r);import build;build.build(%r)" %
                                (os.path.join(ROOT, "harness"), os.path.join(tmp, "b"))],
                               env=dict(ENV, VERIF_REPO=tmp), capture_output=True, text=True)
            if r.returncode:
                return f, m, "invalid", r.stderr[-200:]
            shutil.rmtree(os.path.join(tmp, "src"))
            shutil.move(os.path.join(tmp, "b", "src"), os.path.join(tmp, "src"))
        plan = os.path.join(tmp, "plan.json")
        json.dump(tests_for(f, m), open(plan, "w"))
        out = os.path.join(tmp, "o", "out.json")
        os.makedirs(os.path.dirname(out))
        for shard in wave:
            try:
                subprocess.run([PY, os.path.join(ROOT, "tools", "mutworker.py"), tmp, out, str(shard), "judge", plan],
                               env=ENV, capture_output=True, text=True, timeout=900, cwd=tmp)
            except subprocess.TimeoutExpired:
                return f, m, "killed", "timeout"
            if not os.path.exists(out):
                return f, m, "killed", "crash"
            res = json.load(open(out))
            if res["violation"] or res["error"]:
                return f, m, "killed", str(res["violation"] or res["error"])
        return f, m, "SURVIVED", ""
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    rng = random.Random(int(os.environ.get("PICK", "0")))
    per = int(os.environ.get("PER", "1"))
    wave = [int(k) for k in os.environ.get("WAVE", "0").split(",")]
    dest = os.environ.get("OUT", "/tmp/mut.jsonl")
    done = set()
    if os.path.exists(dest):
        done = {(r["file"], r["line"], r["what"], r["at"]) for r in map(json.loads, open(dest))}
    base = tempfile.mkdtemp(prefix="mutbase_", dir="/tmp")
    sys.path.insert(0, os.path.join(ROOT, "harness"))
    import build

    build.build(base)
    trace(base)
    jobs = []
    if os.environ.get("RECHECK"):
        # judge the survivors of an earlier run again
        for r in map(json.loads, open(os.environ["RECHECK"])):
            if r["verdict"] == "SURVIVED" and (not sys.argv[1:] or r["file"] in sys.argv[1:]) and not r.get("equivalent"):
                m = (r["line"], r["what"], r["at"], r["end"], r["new"], *r["span"])
                if (r["file"],) + m[:3] not in done:
                    jobs.append((base, r["file"], m, wave))
    for f in () if jobs or os.environ.get("RECHECK") else sys.argv[1:] or ORDER:
        text = open(os.path.join(REPO, "src/pykrige", f), newline="").read().replace("\r\n", "\n")
        by = {}
        ext = extents(text) if f.endswith(".py") else {}
        for m in (mutants if f.endswith(".py") else pyx_mutants)(text):
            by.setdefault(m[0], []).append(m + ext.get(m[0], (m[0], m[0])))
        for line in sorted(by):
            for m in rng.sample(by[line], min(per, len(by[line]))):
                if (f, m[0], m[1], m[2]) not in done:
                    jobs.append((base, f, m, wave))
    rng.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    n = {}
    try:
        with cf.ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex, open(dest, "a") as o:
            for q in cf.as_completed([ex.submit(judge, j) for j in jobs]):
                f, m, verdict, text = q.result()
                n[verdict] = n.get(verdict, 0) + 1
                o.write(json.dumps(dict(file=f, line=m[0], what=m[1], at=m[2], end=m[3], new=m[4], span=m[5:7], verdict=verdict, text=text)) + "\n")
                o.flush()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print(n)


if __name__ == "__main__":
    main()
