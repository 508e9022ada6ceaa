#!/usr/bin/env python3
"""seed.py <spec.py> [ids]: (re)create /verif/seeded/<id> from a spec and confirm it in a scratch copy:
applies, builds, keeps the stable tests, demo passes without and fails with the change.  -c also runs the property's check."""
import sys, os, re, json, subprocess, shutil, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/sh
# builds the sources of the current directory together with demo.c in a scratch directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
gcc -g -O1 -w %s -DZYCORE_STATIC_BUILD -D_GNU_SOURCE -Iinclude -Isrc "$here/demo.c" src/*.c src/API/*.c -lpthread -lm -o "$d/demo" && (cd "$d" && timeout 100 ./demo)
r=$?
rm -r "$d"
exit $r
"""
SH = """#!/bin/sh
# works on the sources of the current directory, in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
(
%s
)
r=$?
rm -r "$d"
exit $r
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def blame_ok(f, old):
    """the changed lines must be original ones"""
    txt = open("/repo/" + f).read()
    i = txt.index(old)
    a = txt.count("\n", 0, i) + 1
    b = a + old.rstrip("\n").count("\n")
    out = sh("git -C /repo blame -s -L %d,%d %s" % (a, b, f)).stdout
    return all(l.startswith("^") for l in out.strip().split("\n")), out


def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    for s in spec:
        if ids and s["id"] not in ids:
            continue
        d = os.path.join(V, "seeded", s["id"])
        w = tempfile.mkdtemp(prefix="seed")
        try:
            sh("cp -a /repo/. %s/r" % w)
            r = w + "/r"
            sh("git -C %s checkout -q -- ." % r)
            note = []
            for f, old, new in s["edits"]:
                t = open(os.path.join(r, f)).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                ok, out = blame_ok(f, old)
                if not ok:
                    note.append("lines not all original:\n" + out)
                open(os.path.join(r, f), "w").write(t.replace(old, new))
            patch = sh("git -C %s diff" % r).stdout
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(patch)
            if "demo" in s:
                open(d + "/demo." + s.get("ext", "c"), "w").write(s["demo"].lstrip())
            if "sh" in s:
                open(d + "/demo.sh", "w").write(SH % s["sh"].strip())
            else:
                open(d + "/demo.sh", "w").write(DEMO % s.get("flags", "-fsanitize=address,undefined -fno-sanitize-recover=all"))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            sh("cp -a %s %s/elsewhere" % (d, w))
            a = sh("bash %s/elsewhere/demo.sh" % w, cwd="/repo")
            b = sh("bash %s/elsewhere/demo.sh" % w, cwd=r)
            t = sh("sh %s/tools/buildtest.sh %s" % (V, r))
            res = [] if a.returncode == 0 else ["DEMO FAILS ON CLEAN TREE rc=%d %s" % (a.returncode, (a.stdout + a.stderr)[-600:])]
            if b.returncode == 0:
                res.append("DEMO PASSES WITH PATCH")
            elif "error:" in b.stderr and "Sanitizer" not in b.stderr and "runtime error" not in b.stderr:
                res.append("COMPILE? " + b.stderr[-400:])
            if t.returncode:
                res.append("TESTS rc=%d %s" % (t.returncode, (t.stdout + t.stderr)[-400:]))
            line = "%-28s %s %s" % (s["id"], s["prop"], "; ".join(res + note) or "ok")
            if "-c" in sys.argv:
                c = sh("python3 %s/check.py %s" % (V, s["prop"]), env=dict(os.environ, ZSA_REPO=r))
                line += "  check rc=%d %s" % (c.returncode, [l for l in c.stdout.split("\n") if l.startswith(("  ", "ERROR", "UNDEC", "NOTE"))][:1])
            print(line)
            sys.stdout.flush()
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
