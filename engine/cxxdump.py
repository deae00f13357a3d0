"""Reads the C++ sources of a directory through the compiler's front end: the syntax trees (after name lookup, overload resolution and type checking)
of everything declared in that directory, as JSON from clang."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import tempfile

CLANGS = ("clang++-18", "clang++", "/usr/lib/llvm-18/bin/clang++")


class FrontEnd(Exception):
    pass


def compiler():
    for c in CLANGS:
        p = shutil.which(c)
        if p:
            return p
    raise FrontEnd("no clang++")


def last_file(data, a, b):
    """the file of the last location printed in this stretch (whole lines of it)"""
    b = data.rfind(b"\n", a, b) if b == len(data) else b
    while True:
        i = data.rfind(b'"file": "', a, b)
        if i < 0:
            return None
        line = data.rfind(b"\n", 0, i)
        if b"includedFrom" in data[data.rfind(b"\n", 0, line):line]:
            b = i
            continue
        return data[i + 9:data.find(b'"', i + 9)].decode()


def last_line(data, upto):
    i = data.rfind(b'"line": ', 0, data.rfind(b"\n", 0, upto))
    if i < 0:
        return 0
    j = i + 8
    while data[j:j + 1].isdigit():
        j += 1
    return int(data[i + 8:j])


def place(node, state):
    """give every node the file and line it begins at (clang prints only what changed)"""
    def loc(d):
        # returns (file, line) of this location, after updating the state
        if "spellingLoc" in d or "expansionLoc" in d:
            out = None
            for k in ("spellingLoc", "expansionLoc"):
                if k in d:
                    r = loc(d[k])
                    if k == "expansionLoc" or out is None:
                        out = r
            return out
        if "file" in d:
            state["file"] = d["file"]
        if "line" in d:
            state["line"] = d["line"]
        if "offset" not in d and "file" not in d and "line" not in d:
            return None
        return state["file"], state["line"]

    at = None
    if "loc" in node and isinstance(node["loc"], dict):
        at = loc(node["loc"])
    if "range" in node:
        b = loc(node["range"].get("begin", {}))
        loc(node["range"].get("end", {}))
        at = b or at
    node["_at"] = at
    for k, v in node.items():
        if k in ("loc", "range", "_at"):
            continue
        if isinstance(v, dict):
            if "kind" in v or "id" in v:
                place(v, state)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and x:
                    place(x, state)


HEAD, OVERLAP, CHUNK = 2000, 4000, 1 << 24


def unit(path, root, flags):
    """the declarations of one translation unit that stand in files under root; the rest of the dump (the libraries) is skipped as it streams by"""
    cmd = [compiler(), "-fsyntax-only", "-w", *flags, "-Xclang", "-ast-dump=json", path]
    with tempfile.TemporaryFile() as err:
        pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=err)
        out = []
        buf = b""
        current, line, started, done = None, 0, False, False

        def more():
            nonlocal buf, done
            d = pr.stdout.read(CHUNK)
            if not d:
                done = True
            buf += d
            return bool(d)
        while True:
            if not started:
                p = buf.find(b'\n  "inner": [\n')
                if p < 0:
                    if not more():
                        break
                    continue
                buf = buf[p + len(b'\n  "inner": ['):]
                started = True
            while len(buf) < HEAD and more():
                pass
            if not buf.startswith((b"\n    {\n", b",\n    {\n")):
                break
            head = buf[:HEAD]
            e = head.find(b"\n    }")
            head = head[:e] if e >= 0 else head
            j = head.find(b'"range": {')
            f = last_file(head, 0, j if j > 0 else len(head)) or current
            mine = f is not None and os.path.abspath(f).startswith(root + os.sep)
            seen = 0
            while True:
                e = buf.find(b"\n    }", max(0, seen - 8))
                if e >= 0:
                    break
                if mine:
                    seen = len(buf)
                elif len(buf) > OVERLAP:
                    current = last_file(buf, 0, len(buf)) or current
                    line = last_line(buf, len(buf)) or line
                    buf = buf[-OVERLAP:]
                    seen = 0
                if not more():
                    break
            if e < 0:
                break
            seg = buf[:e + 6]
            if mine:
                n = json.loads(seg.lstrip(b",\n"))
                place(n, {"file": current or f, "line": line})
                out.append(n)
            current = last_file(seg, 0, len(seg)) or current
            line = last_line(seg, len(seg)) or line
            buf = buf[e + 6:]
        pr.stdout.read()
        if pr.wait() != 0:
            err.seek(0)
            raise FrontEnd(f"{os.path.basename(path)} does not compile: {err.read().decode(errors='replace')[:300]}")
    return out


def units(root, flags=("-std=c++20",)):
    """{source file: [declarations of files under root]} for every source file under root"""
    root = os.path.abspath(root)
    files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs if f.endswith((".cpp", ".cc", ".cxx")))
    if not files:
        raise FrontEnd(f"no C++ sources under {root}")
    fl = list(flags) + ["-I", root]
    with concurrent.futures.ProcessPoolExecutor(min(8, len(files))) as ex:
        res = list(ex.map(unit, files, [root] * len(files), [fl] * len(files)))
    return dict(zip(files, res))
