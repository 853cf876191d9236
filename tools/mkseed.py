#!/usr/bin/env python3
"""mkseed.py SPEC.py [--tests t1,t2] : build and confirm one planted change in a scratch copy.
SPEC defines ID, PROPERTY, FILE or EDITS=[(file,[(old,new)])], DEMO, NEEDS, BREAKS, TESTS"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "961a3df"
sp = {}
exec(open(sys.argv[1]).read(), sp)
work = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
repo = os.path.join(work, "repo")
run = lambda *a, **k: subprocess.run(a, capture_output=True, text=True, **k)
try:
    run("git", "clone", "-q", "/repo", repo)
    for f, edits in sp["EDITS"]:
        p = os.path.join(repo, f)
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        for old, new in edits:
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (s.count(old), old)
            s = s.replace(old, new)
        open(p, "w", newline="").write(s)
    diff = run("git", "-C", repo, "diff", "--binary").stdout if False else subprocess.run(
        ["git", "-C", repo, "diff"], capture_output=True).stdout
    # removed lines must be original
    import re
    bl_bad = []
    cur = None
    for l in diff.decode(errors="replace").split("\n"):
        if l.startswith("--- a/"):
            cur = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m:
            n = int(m.group(1))
            continue
        if l.startswith("-") and not l.startswith("---"):
            b = run("git", "-C", repo, "blame", "-s", "-l", "-L", "%d,%d" % (n, n), "HEAD", "--", cur).stdout
            if not b.lstrip("^").startswith(BASE):
                bl_bad.append((cur, n, b[:120]))
            n += 1
        elif l.startswith(" "):
            n += 1
    if bl_bad:
        print("NOT ORIGINAL LINES", bl_bad)
        sys.exit(1)
    d = os.path.join(ROOT, "seeded", sp["ID"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    shutil.copy(os.path.join(ROOT, "tools/seedkit/script.py"), os.path.join(d, "script.py"))
    open(os.path.join(d, "demo.py"), "w").write(sp["DEMO"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": sp["PROPERTY"], "needs": sp["NEEDS"], "what_it_breaks": sp["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    bad = run("bash", d + "/demo.sh", cwd=repo, timeout=300)
    run("git", "-C", repo, "checkout", "-q", "--", ".")
    good = run("bash", d + "/demo.sh", cwd=repo, timeout=300)
    print(sp["ID"], "clean rc", good.returncode, "patched rc", bad.returncode, bad.stdout.strip()[-200:], good.stdout[-300:],
          bad.stderr.strip()[-300:] if bad.returncode != 1 else "", good.stderr[-500:] if good.returncode else "")
    ok = good.returncode == 0 and bad.returncode == 1
    if ok and "--notests" not in sys.argv:
        run("git", "-C", repo, "apply", d + "/patch.diff")
        tests = sp.get("TESTS") or []
        env = dict(os.environ, MPLBACKEND="Agg", PYTHONPATH="/opt/vp/plugins", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        r = run("xvfb-run", "-a", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "-n",
                "6", *["most_queue/tests/test_%s.py" % t for t in tests], cwd=repo, env=env)
        print("tests:", r.stdout.strip().split("\n")[-1])
        ok = r.returncode == 0
        if not ok:
            print(r.stdout[-1500:])
    if not ok:
        shutil.rmtree(d)
        print("REJECTED", sp["ID"])
        sys.exit(1)
finally:
    shutil.rmtree(work)
