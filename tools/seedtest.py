#!/usr/bin/env python3
"""confirms planted bugs in a scratch clone of /repo: applies, builds, passes the tests, demo
fails with the patch and passes without, and which checks catch it.
  seedtest.py [--nocheck] [--props C01,C02] id..."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LANE = os.environ.get("LANE", "0")
S = "/tmp/sb%s/repo" % LANE


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prep():
    if not os.path.exists(S):
        os.makedirs(os.path.dirname(S))
        print(sh("git clone -q /repo " + S).stdout, end="")
    sh("cd %s && git checkout -q -- . && git fetch -q && git reset -q --hard origin/HEAD" % S)
    if not os.path.exists(S + "/_build/build.ninja"):
        sh("cd %s && cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO='-O1 -g' -DBUILD_H264_TESTS=ON -DBUILD_CLANG_FUZZER=OFF" % S)
    r = sh("ninja -C %s/_build" % S)
    assert r.returncode == 0, r.stdout[-2000:]


def tests():
    r = sh("ninja -C %s/_build" % S)
    if r.returncode:
        return "BUILD FAILED " + r.stdout[-1500:]
    r = sh("python3 /opt/vp/run_gtests.py %s/_build > %s/../r.txt; python3 /opt/vp/results.py %s/../o.json lines:%s/../r.txt" % (S, S, S, S), cwd=S)
    o = json.load(open(S + "/../o.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    miss = [x for x in b if x not in o["passed"]]
    return "tests ok" if not miss else "TESTS BROKEN %s" % miss[:4]


def main():
    a = sys.argv[1:]
    check = "--nocheck" not in a
    a = [x for x in a if x != "--nocheck"]
    pr = None
    if a and a[0] == "--props":
        pr = a[1].split(",")
        a = a[2:]
    prep()
    for i in a:
        d = V + "/seeded/" + i
        m = json.load(open(d + "/meta.json"))
        r0 = sh("bash %s/demo.sh" % d, cwd=S)
        ap = sh("git apply %s/patch.diff" % d, cwd=S)
        if ap.returncode:
            print(i, "PATCH DOES NOT APPLY", ap.stdout[:300])
            continue
        try:
            t = tests()
            r1 = sh("bash %s/demo.sh" % d, cwd=S)
            out = ["clean demo %d" % r0.returncode, "patched demo %d" % r1.returncode, t]
            if r0.returncode or not r1.returncode:
                out.append("DEMO WRONG: " + (r0.stdout if r0.returncode else r1.stdout)[-400:])
            if check:
                for p in pr or [m["property"]]:
                    r = sh("python3 check.py " + p, cwd=V, env=dict(os.environ, VERIF_REPO=S))
                    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                    c = [l.strip() for l in r.stdout.splitlines() if "counterexample" in l]
                    out.append("%s: %s" % (p, "CAUGHT (%d) %s" % (len(v), c[0][:150] if c else "") if r.returncode == 1 else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:])))
            print(i, "[%s]" % m["property"], "; ".join(out), flush=True)
        finally:
            sh("git checkout -q -- .", cwd=S)
    sh("ninja -C %s/_build" % S)


main()
