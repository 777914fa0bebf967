#!/usr/bin/env python3
"""Turns a bug description (a Python file with ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS) into seeded/<ID>/ once it is
confirmed in a scratch copy: it applies, changes only original lines, builds, passes the stable tests, its demo tells
the two apart; then runs the property's check against the scratch copy.   plant.py SPEC.py [--keep] [--checks P01,P02]"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "4614fc7"
HEAD = '''import os, sys, tempfile, shutil, atexit
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import pyembroidery as pe
from pyembroidery import *
assert os.path.dirname(os.path.abspath(pe.__file__)) == os.path.join(os.getcwd(), "pyembroidery")
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, TMP, True)


def roundtrip(pattern, ext, settings=None, rsettings=None):
    name = os.path.join(TMP, "a." + ext)
    pe.write(pattern, name, settings)
    return pe.read(name, rsettings)


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    spec = runpy.run_path(sys.argv[1])
    id_ = spec["ID"]
    wt = tempfile.mkdtemp(prefix="plant-")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s" % wt)
        sh("cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % wt)
        for name, old, new in spec["EDITS"]:
            path = os.path.join(wt, "pyembroidery", name)
            data = open(path, newline="").read()
            crlf = "\r\n" in data
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if data.count(old) != 1:
                print("EDIT: %d matches of %r in %s" % (data.count(old), old, name))
                return 1
            open(path, "w", newline="").write(data.replace(old, new))
        patch = subprocess.run(["git", "-C", wt, "diff"], capture_output=True).stdout
        # changed lines must be original
        for f in set(e[0] for e in spec["EDITS"]):
            blame = sh("git -C /repo blame -s HEAD -- pyembroidery/%s" % f).stdout.splitlines()
            d = sh("git -C %s diff -U0 -- pyembroidery/%s" % (wt, f)).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                a, n = int(m.group(1)), int(m.group(2) if m.group(2) is not None else 1)
                for k in range(a, a + n):
                    if not blame[k - 1].startswith("^" + BASE[:7]) and not blame[k - 1].startswith(BASE[:7]):
                        print("NOT ORIGINAL:", blame[k - 1])
                        if "--force" not in sys.argv:
                            return 1
                if n == 0:
                    print("note: pure insertion in", f)
        out = os.path.join(VERIF, "seeded", id_)
        tmpd = tempfile.mkdtemp(prefix="demo-")
        open(tmpd + "/patch.diff", "wb").write(patch)
        open(tmpd + "/demo.py", "w").write(HEAD + spec["DEMO"].lstrip("\n"))
        open(tmpd + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(tmpd + "/meta.json", "w"), indent=1)
        r = sh("bash %s/demo.sh" % tmpd, cwd="/repo", timeout=300)
        if r.returncode:
            print("DEMO fails on unchanged", r.stdout[-500:], r.stderr[-1500:])
            return 1
        r = sh("bash %s/demo.sh" % tmpd, cwd=wt, timeout=300)
        if r.returncode == 0:
            print("DEMO does not see the bug")
            return 1
        print("demo:", (r.stderr.strip().splitlines() or [""])[-1][:200])
        sh("sed -e 's#/repo#%s#g' -e 's#PYTHONPATH=/opt/vp/lib#PYTHONPATH=/opt/vp/lib:%s#' /opt/vp/test.sh > %s/test.sh" % (wt, wt, tmpd))
        r = sh("bash %s/test.sh %s/o.json" % (tmpd, tmpd))
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        o = json.load(open(tmpd + "/o.json"))
        p = o.get("passed", o)
        p = set(p if isinstance(p, list) else [k for k, v in p.items() if v in ("passed", True, "pass")])
        missing = b - p
        if missing:
            print("TESTS notice it:", sorted(missing)[:4], len(missing))
            return 1
        os.makedirs(out, exist_ok=True)
        for f in ("patch.diff", "demo.py", "demo.sh", "meta.json"):
            shutil.copy(tmpd + "/" + f, out + "/" + f)
        shutil.rmtree(tmpd)
        props = [spec["PROPERTY"]]
        for a in sys.argv[2:]:
            if a.startswith("--checks="):
                props += a[9:].split(",")
        for q in props:
            if not os.path.exists(VERIF + "/props/%s.py" % q):
                print("no check", q)
                continue
            r = sh("python3 %s/check.py %s" % (VERIF, q), env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1"))
            print(id_, q, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + q in r.stdout else "MISSED rc=%d" % r.returncode,
                  (r.stdout.strip().splitlines() or [""])[0][:200])
        return 0
    finally:
        shutil.rmtree(wt, True)


if __name__ == "__main__":
    sys.exit(main())
