#!/usr/bin/env python3
"""Development aid (no check uses it): enumerate small source mutants of one file, keep those that build and pass the
repository's tests, and report which of them the static checks notice.
usage: mutate.py src/Vector.c vector [start end] [--stride n]"""
import sys, os, re, subprocess, shutil, json, random
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [(r"(?<![<>=!\-+*/&|])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![-<>=])>(?![>=])", [">="]), (r">=", [">"]),
       (r"==", ["!="]), (r"!=", ["=="]), (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", [""]), (r" \+ (?!1\b|=)", [" - "]), (r" - (?!1\b|=)", [" + "]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\+\+", ["--"]), (r"--(?!-)", ["++"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r" \* (?!const)", [" + "]),
       (r" & (?!const)", [" | "]), (r" \| ", [" & "]), (r"<<", [">>"]), (r">>", ["<<"]), (r"\b0\b", ["1"]), (r"(?<![+-] )\b1\b", ["0", "2"]),
       (r"ZYAN_TRUE", ["ZYAN_FALSE"]), (r"ZYAN_FALSE", ["ZYAN_TRUE"]), (r"MEMMOVE", ["MEMCPY"]), (r"~", [""]), (r"\bindex\b", ["0"]), (r"\bcount\b", ["1"]),
       (r"->size\b", ["->capacity"]), (r"->capacity\b", ["->size"]), (r"% (\w+)", [""]), (r"->next\b", ["->prev"]), (r"->prev\b", ["->next"]),
       (r"->head\b", ["->tail"]), (r"->tail\b", ["->head"]), (r"\bNULL\b", []), (r"ZYAN_MIN", ["ZYAN_MAX"]), (r"ZYAN_MAX", ["ZYAN_MIN"])]


def mutants(text):
    lines = text.split("\n")
    depth = 0
    incomment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            incomment = True
        if incomment:
            if "*/" in l:
                incomment = False
            continue
        if not s or s.startswith(("//", "#", "*")) or "ZYAN_ASSERT" in s:
            continue
        for rx, subs in OPS:
            for m in re.finditer(rx, l):
                for r in subs:
                    yield i, l[:m.start()] + r + l[m.end():]
        if s.endswith(";") and l.startswith("    ") and not re.match(r"(const |static |ZyanU|ZyanI|ZyanS|void\* |char|va_list|typedef)", s) and "=" not in s.split("(")[0].replace("==", "") or re.match(r"\s+[\w>\-\.\*\[\]]+\s*[-+*|&^]?=[^=].*;$", l):
            yield i, re.match(r"\s*", l).group(0) + ";"


def main():
    f, mod = sys.argv[1], sys.argv[2]
    rng = [a for a in sys.argv[3:] if a.isdigit()]
    stride = int(sys.argv[sys.argv.index("--stride") + 1]) if "--stride" in sys.argv else 1
    text = open("/repo/" + f).read()
    ms = list(mutants(text))
    if len(rng) >= 2:
        ms = [m for m in ms if int(rng[0]) <= m[0] + 1 <= int(rng[1])]
    random.Random(1).shuffle(ms)
    ms = ms[::stride]
    lines = text.split("\n")
    base = "/tmp/mutw"
    os.makedirs(base, exist_ok=True)
    # compile only what changed: test binaries linked against a static copy
    def work(k):
        i, new = ms[k]
        d = "%s/%d" % (base, k)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo/src", "/repo/include", "/repo/tests", d], check=True)
        t = list(lines)
        t[i] = new
        open(os.path.join(d, f), "w").write("\n".join(t))
        try:
            r = subprocess.run("sh %s/tools/buildtest.sh %s" % (VERIF, d), shell=True, capture_output=True, text=True, timeout=60)
            if r.returncode == 3:
                return k, "nobuild", ""
            if r.returncode:
                return k, "killed", ""
        except subprocess.TimeoutExpired:
            return k, "killed", ""
        try:
            r = subprocess.run([sys.executable, VERIF + "/tools/analyse.py", mod], env=dict(os.environ, ZSA_REPO=d), capture_output=True, text=True, timeout=600)
            out = r.stdout.strip().split("\n")
            res = "caught" if r.returncode == 1 else ("missed" if r.returncode == 0 else "error")
            return k, res, "\n".join(out[-6:]) + r.stderr[-300:]
        except subprocess.TimeoutExpired:
            return k, "timeout", ""
        finally:
            shutil.rmtree(d, ignore_errors=True)
    cnt = {}
    with ThreadPoolExecutor(int(os.environ.get("MUTJ", "8"))) as ex:
        for k, res, out in ex.map(work, range(len(ms))):
            cnt[res] = cnt.get(res, 0) + 1
            i, new = ms[k]
            shutil.rmtree("%s/%d" % (base, k), ignore_errors=True)
            if res in ("missed", "error", "timeout") or (res == "caught" and "-v" in sys.argv):
                print("%s %s:%d  %s   ==>  %s" % (res.upper(), f, i + 1, lines[i].strip(), new.strip()))
                print("      " + out.replace("\n", "\n      ")[:700])
                sys.stdout.flush()
    print(cnt)


main()
