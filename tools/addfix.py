# addfix.py PROP: append the /repo fix commits that known_findings.json does not list yet
import subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "tools/mkfindings.py"); s = open(p).read()
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h|%s"]).decode().splitlines():
    h, m = l.split("|", 1)
    if m.startswith("fix:") and h not in s:
        i = s.index('"""', s.index('FIXED = """') + 11); s = s[:i] + "\n%s|%s|%s" % (h, sys.argv[1], m[5:].replace("|", "/")) + s[i:]
open(p, "w").write(s)
subprocess.check_call([sys.executable, p])
