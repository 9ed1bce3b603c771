#!/usr/bin/env python3
"""plant one bug: seed.py ID PROPERTY SPEC.  SPEC (Python file) defines edits=[(file, old, new)...], needs, breaks, demo (Python text).

Works on a scratch copy of /repo; keeps the bug in /verif/seeded/ID only when the patched copy still passes the
stable tests, the demonstration tells the two trees apart, and only original lines were touched.  Prints whether
the property's check (and, with --all, any other check) notices it."""
import json, os, subprocess, sys, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
BASE = "d4621c0"


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def tests(cwd):
    env = {"PYTHONPATH": cwd, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1"}
    x = os.path.join(cwd, "junit-seed.xml")
    sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -W ignore --tb=no -o junit_family=xunit2 --junitxml=%s tests" % x, cwd, env)
    sh("/usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s" % (cwd, x))
    o = json.load(open(cwd + "/o.json"))
    os.remove(x); os.remove(cwd + "/o.json")
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o["passed"])


def original(f, lines):
    rc, out = sh("git blame -s -l %s" % f, R)
    have = {}
    for l in out.splitlines():
        m = re.match(r"(\^?)([0-9a-f]+)\s+(?:\S+\s+)?\d+\) (.*)", l) or re.match(r"(\^?)([0-9a-f]+)\s+(?:\S+\s+)?\d+\)(.*)", l)
        n = int(re.search(r"(\d+)\)", l).group(1))
        have[n] = (m.group(2), l)
    return have


def main():
    sid, prop, spec = sys.argv[1:4]
    ns = {}
    exec(open(spec).read(), ns)
    s = "/tmp/sr-" + sid
    sh("rm -rf %s && cp -a %s %s" % (s, R, s))
    try:
        for f, old, new in ns["edits"]:
            p = os.path.join(s, "awkward0", f)
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        rc, diff = sh("git diff", s)
        cur = None
        bad = []
        orig = 0
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = original(l[6:], None)
            elif l.startswith("@@"):
                n = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-") and not l.startswith("---"):
                orig += 1
                if not cur[n][0].startswith(BASE) and not BASE.startswith(cur[n][0][:7]):
                    h = cur[n][0]
                    rc, o = sh("git merge-base --is-ancestor %s %s" % (h, BASE), R)
                    if rc:
                        bad.append(cur[n][1])
                n += 1
            elif l.startswith(" "):
                n += 1
        if bad or not orig:
            print("NOT ORIGINAL LINES:", orig, *bad, sep="\n")
            return 1
        d = os.path.join(V, "seeded", sid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(ns["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec "$PY" -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        a, ao = sh("bash %s/demo.sh" % d, R)
        b, bo = sh("bash %s/demo.sh" % d, s)
        t = tests(s)
        ok = a == 0 and b != 0 and not t
        print("demo clean=%d patched=%d tests failing=%s -> %s" % (a, b, sorted(t)[:3], "kept" if ok else "DROPPED"))
        if a:
            print(ao[-800:])
        if not ok:
            shutil.rmtree(d)
            return 1
        print("   ", bo.strip().splitlines()[-1] if bo.strip() else "")
        props = [prop] if "--all" not in sys.argv else ["P%02d" % i for i in range(1, 28) if os.path.exists(V + "/checks/p%02d.py" % i)]
        for q in props:
            rc, o = sh("bash %s/check.sh %s quick" % (V, q), V, {"AKMON_REPO": s, "AKMON_EVIDENCE": "/tmp/seed-evidence"})
            v = [l for l in o.splitlines() if "VIOLATION" in l or l.startswith("  ")]
            print("%s rc=%d %s" % (q, rc, "CAUGHT" if rc == 1 and v else "MISSED"), *(v[1:2] or o.strip().splitlines()[-1:]))
        return 0
    finally:
        sh("rm -rf %s" % s)


sys.exit(main())
