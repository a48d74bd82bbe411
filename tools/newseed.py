#!/usr/bin/env python3
# tools/newseed.py <id> <property> "<needs>" "<breaks>"  : takes the diff of /tmp/edit (a git copy of /repo) and demo.cpp from stdin
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, p, n, b = sys.argv[1:5]
d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/tmp/edit", "diff", "--", "src", "contrib"], capture_output=True, text=True).stdout
assert diff.strip(), "no diff"
open(os.path.join(d, "patch.diff"), "w").write(diff)
src = sys.stdin.read()
if src.strip(): open(os.path.join(d, "demo.cpp"), "w").write(src)
if not os.path.exists(os.path.join(d, "demo.sh")):
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# run in /repo after build.sh; exit 0: fine, nonzero: broken
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d) || exit 2
INC=; for i in Common LinAlg LinAlg/TMatrices Algorithm Algorithm/LinearSolvers Algorithm/Inexact Interfaces contrib/CGPenalty; do INC="$INC -I$R/src/$i"; done
g++ -O1 -w -DHAVE_CONFIG_H -DIPOPTLIB_BUILD $INC -I$R/_build/src/Common -I$R/contrib/sIPOPT/src "$D/demo.cpp" -o $T/demo -L$R/_build/inst/lib -lipopt $EXTRA -Wl,-rpath,$R/_build/inst/lib || { rm -rf "$T"; exit 2; }
(cd $T && ./demo); rc=$?
rm -rf "$T"; exit $rc
''')
json.dump({"property": p, "needs": n, "what_it_breaks": b}, open(os.path.join(d, "meta.json"), "w"), indent=1)
subprocess.run(["git", "-C", "/tmp/edit", "checkout", "-q", "--", "."])
print("wrote", d)
