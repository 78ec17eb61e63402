#!/usr/bin/env python3
"""Development aid: turn planted-bug descriptions (a python file with SEEDS) into seeded/<id>/ and confirm them.
usage: seed.py FILE [id...]   Each seed: dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=C++ source)"""
import sys, os, subprocess, json, shutil, tempfile
V = "/verif"; R = "/repo"
SH = '''#!/bin/bash
# exit 0: the behaviour is right; non-zero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/geardemo.XXXXXX) || exit 99
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O0 -w -I/repo/_build -I/repo/include -I/repo/include/gear -I"$d" "$d/demo.cc" -L/repo/_build -lgearxml -lgear -lgearsurf -lCLHEP -Wl,-rpath,/repo/_build -o "$t/demo" || exit 98
cd "$t" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for s in ns["SEEDS"]:
        if want and s["id"] not in want: continue
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, a, b in s["edits"]:
                p = os.path.join(R, f); t = open(p).read()
                assert t.count(a) == 1, (s["id"], f, t.count(a), a)
                open(p, "w").write(t.replace(a, b))
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
            open(os.path.join(d, "demo.cc"), "w").write(s["demo"]); open(os.path.join(d, "demo.sh"), "w").write(SH); os.chmod(os.path.join(d, "demo.sh"), 0o755)
            for f in s.get("files", []): shutil.copy(os.path.join(V, f), d)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0, r.stdout[-2000:]
            r = sh("bash /opt/vp/test.sh /tmp/seedt.json"); p = set(json.load(open("/tmp/seedt.json"))["passed"])
            miss = [x for x in base if x not in p]
            r1 = sh("bash %s/demo.sh" % d, cwd=R)
            c = sh("python3 run.py %s quick" % s["prop"], cwd=V)
            hit = c.returncode == 1 and "VIOLATION property=%s" % s["prop"] in c.stdout
        finally:
            sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
        r0 = sh("bash %s/demo.sh" % d, cwd=R)
        ok = not miss and r1.returncode not in (0, 98, 99) and r0.returncode == 0
        print(s["id"], s["prop"], "valid" if ok else "INVALID", "tests-broken=%s" % miss if miss else "", "demo bug rc", r1.returncode, "clean rc", r0.returncode, "CAUGHT" if hit else "MISSED rc %d %s" % (c.returncode, (c.stdout + c.stderr)[-300:]), flush=True)
        if not ok: print(r0.stdout[-500:], r0.stderr[-1500:], r1.stderr[-500:])
main()
