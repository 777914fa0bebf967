#!/usr/bin/env python3
"""Mutation sweep (development tool, not a check): random small source mutants of the library; those that pass the
stable tests are run against the checks; survivors are listed for inspection.

  mutate.py OUT.jsonl --n 400 --seed 1 [--files A.py,B.py] [--fraction 0.3] [--procs 8]"""
import ast, argparse, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "/repo/pyembroidery/"
SKIP = {"__init__.py", "EmbConstant.py"}
FORMAT_CHECKS = "P01 P02 P03 P07 P08 P04 P12 P22 P21 P20 P35 P10 P06 P05 P09 P36 P33 P34 P11 P14 P13".split()
CORE_CHECKS = "P13 P14 P15 P16 P17 P18 P19 P12 P01 P02 P03 P20 P21 P23 P24 P25 P26 P27 P28 P29 P30 P31 P32 P35 P36 P34 P33 P07 P04 P05 P06 P22".split()
FIRST = {
    "EmbCompress.py": ["P09"], "EmbMatrix.py": ["P32", "P26", "P18"], "EmbThread.py": ["P30", "P31"], "EmbFunctions.py": ["P29"],
    "PngWriter.py": ["P33"], "SvgWriter.py": ["P34"], "TxtWriter.py": ["P34"], "GenericWriter.py": ["P36", "P34"],
    "CsvWriter.py": ["P05"], "CsvReader.py": ["P05"], "JsonWriter.py": ["P05"], "JsonReader.py": ["P05"],
    "PecGraphics.py": ["P07"], "EmbEncoder.py": ["P13", "P16", "P19", "P17", "P18", "P12", "P15", "P14"],
    "EmbPattern.py": ["P23", "P24", "P25", "P26", "P27", "P28", "P35"], "PyEmbroidery.py": ["P35"],
    "ColWriter.py": ["P06"], "ColReader.py": ["P06"], "EdrWriter.py": ["P06"], "EdrReader.py": ["P06"], "InfWriter.py": ["P06"], "InfReader.py": ["P06"],
}
CORE = {"EmbEncoder.py", "EmbPattern.py", "EmbThread.py", "EmbMatrix.py", "EmbFunctions.py", "GenericWriter.py", "PyEmbroidery.py"}


def mutants(name):
    src = open(PKG + name, newline="").read()
    tree = ast.parse(src)
    lines = src.splitlines(True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode("utf8")))
    raw = src.encode("utf8")

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(a, b, new, what, line):
        old = raw[a:b].decode("utf8")
        if old != new:
            out.append({"file": name, "line": line, "a": a, "b": b, "old": old, "new": new, "what": what})

    CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<", ast.Mod: "*", ast.FloorDiv: "*"}

    class V(ast.NodeVisitor):
        infunc = 0

        def visit_FunctionDef(self, n):
            if n.name in ("supported_formats", "parse_string_color", "position_will_exceed_constraint") or "thread_set" in n.name:
                return
            self.infunc += 1
            for x in n.body:
                self.visit(x)
            self.infunc -= 1

        def visit_Expr(self, n):
            if isinstance(n.value, ast.Constant):
                return
            if self.infunc:
                a, b = span(n)
                add(a, b, "pass", "drop statement", n.lineno)
            self.generic_visit(n)

        def visit_Assign(self, n):
            if self.infunc:
                a, b = span(n)
                add(a, b, "pass", "drop assignment", n.lineno)
                self.generic_visit(n)

        def visit_AugAssign(self, n):
            if self.infunc:
                a, b = span(n)
                add(a, b, "pass", "drop assignment", n.lineno)
                t = raw[a:b].decode()
                for x, y in (("+=", "-="), ("-=", "+="), ("+=", "="), ("|=", "="), ("&=", "|="), ("*=", "=")):
                    if x in t:
                        add(a, b, t.replace(x, y, 1), "aug op", n.lineno)
                        break
                self.generic_visit(n)

        def visit_Compare(self, n):
            if len(n.ops) == 1:
                l, r = n.left, n.comparators[0]
                a, b = span(l)[1], span(r)[0]
                t = raw[a:b].decode()
                for new in CMP.get(type(n.ops[0]), []):
                    add(a, b, re.sub(r"(is not|not in|<=|>=|==|!=|<|>|is|in)", new, t, count=1), "compare", n.lineno)
            self.generic_visit(n)

        def visit_BinOp(self, n):
            new = BIN.get(type(n.op))
            if new and self.infunc and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                a, b = span(n.left)[1], span(n.right)[0]
                t = raw[a:b].decode()
                add(a, b, re.sub(r"(<<|>>|//|[-+*/&|%])", lambda m: new, t, count=1), "arith", n.lineno)
            self.generic_visit(n)

        def visit_BoolOp(self, n):
            for l, r in zip(n.values, n.values[1:]):
                a, b = span(l)[1], span(r)[0]
                t = raw[a:b].decode()
                add(a, b, t.replace("and", "OR").replace("or", "and").replace("OR", "or"), "bool", n.lineno)
            self.generic_visit(n)

        def visit_UnaryOp(self, n):
            a, b = span(n)
            if isinstance(n.op, ast.Not):
                add(a, b, "(" + raw[span(n.operand)[0]:b].decode() + ")", "drop not", n.lineno)
            elif isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                add(a, b, raw[span(n.operand)[0]:b].decode(), "drop minus", n.lineno)
            self.generic_visit(n)

        def visit_If(self, n):
            a, b = span(n.test)
            t = raw[a:b].decode()
            add(a, b, "(%s) and False" % t, "if false", n.lineno)
            add(a, b, "(%s) or True" % t, "if true", n.lineno)
            self.generic_visit(n)

        def visit_Constant(self, n):
            if not self.infunc:
                return
            a, b = span(n)
            t = raw[a:b].decode()
            if isinstance(n.value, bool):
                add(a, b, str(not n.value), "const", n.lineno)
            elif isinstance(n.value, int):
                for d in (1, -1):
                    add(a, b, str(n.value + d), "const", n.lineno)
            elif isinstance(n.value, float):
                add(a, b, str(n.value * 2 + 0.5), "const", n.lineno)
            elif isinstance(n.value, str) and len(n.value) > 0 and t[0] in "\"'":
                add(a, b, repr(n.value[:-1]), "const", n.lineno)

        def visit_Break(self, n):
            a, b = span(n)
            add(a, b, "continue", "break->continue", n.lineno)

        def visit_Continue(self, n):
            a, b = span(n)
            add(a, b, "break", "continue->break", n.lineno)
            add(a, b, "pass", "drop continue", n.lineno)

        def visit_Return(self, n):
            if n.value is None:
                a, b = span(n)
                add(a, b, "pass", "drop return", n.lineno)
            self.generic_visit(n)

    V().visit(tree)
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def judge(m, args, seed):
    wt = tempfile.mkdtemp(prefix="mut-")
    try:
        sh("cp -a /repo/. %s" % wt)
        path = "%s/pyembroidery/%s" % (wt, m["file"])
        raw = open(path, "rb").read()
        new = raw[: m["a"]] + m["new"].encode() + raw[m["b"]:]
        try:
            compile(new, path, "exec")
        except SyntaxError:
            m["result"] = "syntax"
            return m
        open(path, "wb").write(new)
        env = dict(os.environ, VERIF_REPO=wt, VERIF_WORKERS="1", VERIF_OUT=wt + "/.out", VERIF_FRACTION=str(args.fraction), VERIF_SEED="1", VERIF_TIER="quick")
        sh("sed -e 's#/repo#%s#g' -e 's#PYTHONPATH=/opt/vp/lib#PYTHONPATH=/opt/vp/lib:%s#' -e 's#--timeout=300#--timeout=60 -x#' /opt/vp/test.sh > %s/.test.sh" % (wt, wt, wt))
        try:
            sh("bash %s/.test.sh %s/.o.json" % (wt, wt), timeout=200)
        except subprocess.TimeoutExpired:
            m["result"] = "tests"
            return m
        try:
            o = json.load(open(wt + "/.o.json"))
            p = o.get("passed", o)
            p = set(p if isinstance(p, list) else [k for k, v in p.items() if v in ("passed", True, "pass")])
        except Exception:
            p = set()
        if STABLE - p:
            m["result"] = "tests"
            return m
        checks = list(FIRST.get(m["file"], []))
        for c in CORE_CHECKS if m["file"] in CORE else FORMAT_CHECKS:
            if c not in checks:
                checks.append(c)
        odd = []
        for c in checks:
            try:
                r = subprocess.run([sys.executable, VERIF + "/check.py", c], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                odd.append(c + ":timeout")
                continue
            if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                m["result"] = "caught"
                m["by"] = c
                m["msg"] = r.stdout.strip().splitlines()[0][:160]
                return m
            if r.returncode != 0:
                odd.append("%s:%d %s" % (c, r.returncode, (r.stdout + r.stderr)[-200:]))
        m["result"] = "SURVIVED"
        m["odd"] = odd
        return m
    finally:
        shutil.rmtree(wt, True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files")
    ap.add_argument("--recheck", help="an earlier OUT: run its survivors again")
    ap.add_argument("--fraction", type=float, default=0.3)
    ap.add_argument("--procs", type=int, default=8)
    a = ap.parse_args()
    files = a.files.split(",") if a.files else sorted(f for f in os.listdir(PKG) if f.endswith(".py") and f not in SKIP)
    rng = random.Random(a.seed)
    every = []
    cap = 10 ** 9
    for f in files:
        if f.startswith("EmbThread") and f != "EmbThread.py" and not a.files:
            continue
        every += mutants(f)
    rng.shuffle(every)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["file"], d["a"], d["b"], d["new"]))
    if a.recheck:
        every = [json.loads(l) for l in open(a.recheck)]
        every = [m for m in every if m["result"] == "SURVIVED"]
    todo = [m for m in every[: a.n] if (m["file"], m["a"], m["b"], m["new"]) not in done]
    print(len(every), "mutants,", len(todo), "to run", flush=True)
    tally = {}
    with ThreadPoolExecutor(a.procs) as pool, open(a.out, "a") as f:
        from concurrent.futures import as_completed
        for fu in as_completed([pool.submit(judge, m, a, a.seed) for m in todo]):
            m = fu.result()
            tally[m["result"]] = tally.get(m["result"], 0) + 1
            f.write(json.dumps(m) + "\n")
            f.flush()
            if m["result"] == "SURVIVED":
                print("SURVIVED %s:%d  %r -> %r  (%s) %s" % (m["file"], m["line"], m["old"][:80], m["new"][:80], m["what"], m["odd"]), flush=True)
    print(tally)


if __name__ == "__main__":
    main()
