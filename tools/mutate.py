"""Apply textual mutants to scratch copies of /repo and run the checks on them (development aid; not part of any check).
usage: mutate.py FILE.json   with entries [ids, file, old, new]; file, old and new may be lists of equal length (one edit each)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ms = json.load(open(sys.argv[1]))
root = tempfile.mkdtemp(prefix="mut")


def one(k):
    ids, f, old, new = ms[k]
    d = os.path.join(root, str(k))
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__", "build"))
    olds, news = (old, new) if isinstance(old, list) else ([old], [new])
    fs = f if isinstance(f, list) else [f] * len(olds)
    for ff, o, n in zip(fs, olds, news):
        p = os.path.join(d, ff)
        s = open(p).read()
        if s.count(o) < 1:
            return f"{k} ?? {ff} {o[:60]!r} count {s.count(o)}"
        open(p, "w").write(s.replace(o, n, 1))
        r = subprocess.run(["python3", "-m", "py_compile", p], capture_output=True, text=True) if p.endswith(".py") else None
        if r is not None and r.returncode:
            return f"{k} ?? does not compile: {r.stderr[-200:]}"
    res = []
    for i in ([f"C{n:02d}" for n in range(1, 41)] if ids == "ALL" else ids.split()):
        r = subprocess.run(["python3", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "run.py"), i], env={**os.environ, "VERIF_REPO": d, "VERIF_EVIDENCE": d}, capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.startswith("  [")]
        if ids == "ALL" and r.returncode == 0 and "undecided=0" in r.stdout:
            continue
        res.append(f"{i}={r.returncode} {(lines or [(r.stdout + r.stderr).strip()[-100:] if r.returncode != 1 else ''])[0][:190]}")
    shutil.rmtree(d)
    return f"{k} | {news[-1].strip()[:60]!r}\n    " + "\n    ".join(res)


try:
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, range(len(ms))):
            print(r)
finally:
    shutil.rmtree(root)
