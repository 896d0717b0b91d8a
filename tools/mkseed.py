#!/usr/bin/env python3
"""tools/mkseed.py DEF.py : creates /verif/seeded/<id>/ for each bug in DEF.py's BUGS list and tries it out.
BUGS entries: id, property, needs, breaks, file, old, new (or edits=[(file,old,new)]), demo (C++ body of main returning 0/1), inc (extra includes)."""
import json, os, subprocess, sys, runpy
V = "/verif"; R = os.environ.get("SEED_REPO", "/repo"); VP = os.environ.get("SEED_VP", "/opt/vp") # a scratch copy of the repository and of /opt/vp with paths adapted
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0: behaves as documented; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++14 -O1 -w -D_GLIBCXX_ASSERTIONS -DGC_HAVE_SUITESPARSE -Iinclude -Ideps/nanort/include -Ideps/nanoflann/include -isystem /usr/include/eigen3 -isystem /usr/include/suitesparse "$D/demo.cpp" _build/lib/libgeometry-central.a %s -o "$W/demo" || exit 2
cd "$W" && timeout 60 ./demo
'''
def main():
    d = runpy.run_path(sys.argv[1]); only = sys.argv[2:]
    for b in d["BUGS"]:
        if only and b["id"] not in only: continue
        D = f"{V}/seeded/{b['id']}"; os.makedirs(D, exist_ok=True)
        assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "dirty /repo"
        for f, o, n in b.get("edits") or [(b["file"], b["old"], b["new"])]:
            p = R + "/" + f; s = open(p).read(); assert s.count(o) == 1, (b["id"], f, s.count(o)); open(p, "w").write(s.replace(o, n))
        open(D + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        sh(f"git -C {R} checkout -- .")
        open(D + "/demo.cpp", "w").write(b.get("inc", '#include "geometrycentral/surface/manifold_surface_mesh.h"\n') + "#include <cstdio>\n" + b.get("pre", "") +
            "using namespace geometrycentral;\nusing namespace geometrycentral::surface;\nint main() {\n" + b["demo"].strip() + "\n}\n")
        open(D + "/demo.sh", "w").write(DEMO % b.get("libs", "")); os.chmod(D + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(D + "/meta.json", "w"), indent=1)
        r0 = sh(f"bash {D}/demo.sh", cwd=R)
        assert sh(f"git -C {R} apply {D}/patch.diff").returncode == 0
        try:
            bb = sh(f"bash {VP}/build.sh"); okb = bb.returncode == 0
            sh(f"bash {VP}/test.sh /tmp/seed.json"); t = json.load(open("/tmp/seed.json")); base = json.load(open("/opt/vp/BASELINE.json"))
            r1 = sh(f"bash {D}/demo.sh", cwd=R)
            c = sh(f"GC_REPO={R} python3 check.py {b['property']}", cwd=V)
        finally:
            sh(f"git -C {R} checkout -- .")
        # restore build
        sh(f"bash {VP}/build.sh")
        viol = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        why = [l.strip() for l in c.stdout.splitlines() if "counterexample" in l][:2]
        print(f"{b['id']} {b['property']}: build={'ok' if okb else 'FAIL'} tests={len(t['passed'])}/{len(t['failed'])} demo clean={r0.returncode} patched={r1.returncode} check={c.returncode} {why}", flush=True)
        if r0.returncode or not okb: print(r0.stdout[-1500:], bb.stdout[-1500:] if not okb else "")
        if c.returncode != 1: print(c.stdout[-600:])
main()
