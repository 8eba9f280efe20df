#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE(s)...: development helper.  Reads a seed description module seeds_src/ID.py and writes seeded/ID.
The module defines EDITS=[(file,old,new)], NEEDS, BREAKS, DEMO (shell text), FILES={name:text}."""
import sys, os, subprocess, json, importlib.util, shutil
V = "/verif"
R = "/repo"
for sid in sys.argv[1:]:
    spec = importlib.util.spec_from_file_location("s", V + "/tools_dev/seeds/%s.py" % sid)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    saved = {}
    try:
        for f, o, n in m.EDITS:
            p = os.path.join(R, f); s = open(p, newline="").read()
            saved.setdefault(p, s)
            assert s.count(o) >= 1, (sid, f, o)
            open(p, "w", newline="").write(s.replace(o, n, 1))
        d = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    finally:
        for p, s in saved.items():
            open(p, "w", newline="").write(s)
    out = V + "/seeded/" + sid
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(out + "/patch.diff", "w").write(d)
    files = dict(m.FILES)
    for n in getattr(m, "COMMON", []):
        files[n] = open(V + "/tools_dev/seeds/common/" + n).read()
    for n, t in files.items():
        open(os.path.join(out, n), "w").write(t)
    open(out + "/demo.sh", "w").write(m.DEMO)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": m.PROP, "needs": m.NEEDS, "what_it_breaks": m.BREAKS, **({"caught": m.CAUGHT} if hasattr(m, "CAUGHT") else {})}, open(out + "/meta.json", "w"), indent=1)
    print(sid, len(d.splitlines()), "diff lines")
