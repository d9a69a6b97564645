#!/usr/bin/env python3
"""Planted bugs: writes seeded/<id>/ from tools/seeds.py and, in a scratch copy,
confirms that each compiles, passes the stable tests, and that its demonstration
fails with the change and passes without it.   seed.py [ids...]   (no check uses this)"""
import sys, os, json, subprocess, shutil, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from seeds import SEEDS
H = open(V + "/tools/seed_chk.hpp").read()
def sh(c, cwd=None, t=600): return subprocess.run(c, shell=True, cwd=cwd, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def orig_lines(f):
    return set(l.strip() for l in sh("git show 2566bdf:%s" % f, cwd="/repo").stdout.splitlines())
ids = sys.argv[1:]
for s in SEEDS:
    if ids and s["id"] not in ids: continue
    d = "%s/seeded/%s" % (V, s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed", dir="/tmp"); r = w + "/repo"
    try:
        sh("git clone -q /repo %s" % r)
        for f, a, b in s["edits"]:
            t = open(r + "/" + f).read(); assert t.count(a) == 1, (s["id"], f, t.count(a), a)
            open(r + "/" + f, "w").write(t.replace(a, b))
        df = sh("git diff", cwd=r).stdout; open(d + "/patch.diff", "w").write(df)
        for f in set(e[0] for e in s["edits"]):
            o = orig_lines(f); rem = []; cur = None
            for l in df.splitlines():
                if l.startswith("+++"): cur = l[6:]
                elif l.startswith("-") and not l.startswith("---") and cur == f: rem.append(l[1:].strip())
            bad = [x for x in rem if x not in o]
            if bad or not rem: print(s["id"], "NOT ORIGINAL LINES", bad, rem)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        if "py" in s:
            open(d + "/demo.py", "w").write(s["py"])
            open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: behaves as stated\nhere=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)\nw=$(mktemp -d) || exit 2; trap \'rm -rf "$w"\' EXIT\ncd "$w" && PYTHONDONTWRITEBYTECODE=1 timeout 120 python3 "$here/demo.py" "$repo"\n')
        else:
            open(d + "/demo.cpp", "w").write('#include "chk.hpp"\n' + s["demo"]); open(d + "/chk.hpp", "w").write('#pragma once\n' + H)
            src = s["src"]; sht = any(x in src for x in ("sphere", "grid")) or "grid" in s.get("inc", "")
            if sht or s.get("sht"):
                shutil.copy(V + "/engine/include/shtns.h", d); shutil.copy(V + "/engine/native/shtns_ref.cpp", d)
                open(d + "/vp.h", "w").write("")
            files = " ".join('"$repo/Source/%s.cpp"' % x for x in src.split()) + (' "$here/shtns_ref.cpp"' if sht or s.get("sht") else "")
            open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: behaves as stated
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
w=$(mktemp -d) || exit 2; trap 'rm -rf "$w"' EXIT
g++ -std=c++11 -O1 -w -fopenmp %s -I"$here" -I"$repo/Source" "$here/demo.cpp" %s -o "$w/demo" -lfftw3 -lm || exit 3
cd "$w" && %s timeout 120 ./demo
""" % (s.get("flags", "-DSHTNS_CONTIGUOUS_LONGITUDES"), files, s.get("env", "OMP_NUM_THREADS=4")))
        os.chmod(d + "/demo.sh", 0o755)
        a = sh("bash %s/demo.sh" % d, cwd="/repo"); b = sh("bash %s/demo.sh" % d, cwd=r)
        # stable tests with the change
        m = open("/opt/vp/Makefile.repo").read().replace("/repo", r); open(w + "/mk", "w").write(m)
        c = sh("make -f %s/mk -j8 test && for t in test_cheb.derivatives test_cheb.filter_is_TVD test_cheb.to_and_from test_finite_diff.derivatives test_finite_diff.filter_is_TVD; do ./_build/test.run --gtest_filter=$t | grep -q '\\[       OK \\]' || { echo TESTFAIL $t; exit 1; }; done" % w, cwd=r)
        ok = a.returncode == 0 and b.returncode not in (0, 3) and c.returncode == 0
        print(s["id"], "OK" if ok else "BAD clean=%d patched=%d tests=%d" % (a.returncode, b.returncode, c.returncode), flush=True)
        print("   ", b.stdout.strip().splitlines()[-1:] )
        if not ok: print(a.stdout[-700:], b.stdout[-700:], c.stdout[-600:] if c.returncode else "")
    finally: shutil.rmtree(w, ignore_errors=True)
