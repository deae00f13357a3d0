"""mkseed(id, property, [(file, old, new)...], demo_python, needs, what): writes /verif/seeded/<id>/ (development aid)."""
import json, os, shutil, subprocess, tempfile
DEMO = '''#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it does not
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def mkseed(sid, prop, edits, demo, needs, what, demo_sh=None, extra=None):
    d = f"/verif/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        r = os.path.join(t, "r")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True, check=True).stdout
        open(f"{d}/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(t)
    open(f"{d}/demo.sh", "w").write(demo_sh or DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    if demo:
        open(f"{d}/demo.py", "w").write(demo)
    for n, s in (extra or {}).items():
        open(f"{d}/{n}", "w").write(s)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)
