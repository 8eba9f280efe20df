#!/usr/bin/env python3
"""Development self-test: applies one small edit at a time to the working tree, runs a check and restores the file.
usage: run.py PID [index...]     (edits in selftest/PID.py: list M of (kind, file, old, new[, occurrence]),
kind "bad": the check must report a violation; "ok": behaviour is kept, the check must stay quiet)"""
import sys, os, subprocess, importlib.util, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
pid = sys.argv[1]
only = [int(x) for x in sys.argv[2:]]
spec = importlib.util.spec_from_file_location("m", os.path.join(HERE, pid + ".py"))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
fails = 0
for i, e in enumerate(m.M):
    if only and i not in only:
        continue
    kind, file, old, new = e[:4]
    edits = [(file, old, new)] + list(e[4:])
    saved = {}
    try:
        for f, o, n in edits:
            p = os.path.join(REPO, f)
            s = open(p).read()
            saved.setdefault(p, (s, os.stat(p)))
            if s.count(o) < 1:
                print("%d: pattern not found in %s: %r" % (i, f, o[:60]))
                fails += 1
                break
            open(p, "w").write(s.replace(o, n, 1))
        else:
            r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), pid], capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if "[" + pid in l]
            good = (r.returncode == 1) if kind == "bad" else (r.returncode == 0)
            if not good:
                fails += 1
            print("%s %d %s rc=%d %r -> %r : %s" % ("  " if good else "**", i, kind, r.returncode, old[-40:], new[-40:], (v[0][:150] if v else (r.stderr[-200:] if r.returncode == 2 else ""))))
            sys.stdout.flush()
    finally:
        for p, (s, st) in saved.items():
            open(p, "w").write(s)
            os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))     # no needless rebuild
print("%d unexpected" % fails)
