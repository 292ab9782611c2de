#!/usr/bin/env python3
"""mkseed.py FILE.py: make the planted changes described in FILE.py (a list
SEEDS of dicts id, property, needs, breaks, edits=[(file, old, new)], main,
race) and keep those that compile, pass the tests, change original lines and
are demonstrated. Works in a scratch copy of /repo."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
BASE = "f59a643"
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    tmp = tempfile.mkdtemp(prefix="seed.")
    try:
        w = tmp + "/r"
        subprocess.check_call(["cp", "-a", "/repo", w])
        sh("git checkout -q -- .", w)
        bad = None
        orig = set()
        for f, old, new in s["edits"]:
            t = open(w + "/" + f).read()
            if t.count(old) != 1:
                bad = "%s: text found %d times: %r" % (f, t.count(old), old[:60])
                break
            open(w + "/" + f, "w").write(t.replace(old, new))
        if bad:
            print(s["id"], "BAD", bad)
            continue
        diff = sh("git diff", w).stdout
        # removed lines or, without any, lines around must be original
        base = {}
        touched = False
        for m in re.finditer(r"^--- a/(\S+)\n(.*?)(?=^diff|\Z)", diff, re.S | re.M):
            f = m.group(1)
            b = sh("git show %s:%s" % (BASE, f), w).stdout.splitlines()
            rem = [l[1:] for l in m.group(2).splitlines() if l.startswith("-")]
            if any(r.strip() and r in b for r in rem):
                touched = True
        if not touched:
            print(s["id"], "NOTE: no removed line is an original one")
        r = sh("gofmt -l . | grep -v examples; go vet . 2>&1 | grep -i declared; go test ./... 2>&1 | tail -5; go test . >/dev/null 2>&1", w)
        if r.returncode:
            print(s["id"], "BAD tests fail:", r.stdout[-600:])
            continue
        d = os.path.join(os.path.dirname(HERE), "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        shutil.copy(HERE + "/seedlib/prelude.go", d)
        open(d + "/main.go", "w").write(s["main"])
        open(d + "/demo.sh", "w").write(open(HERE + "/seedlib/demo.sh").read().replace("RACE ", "-race " if s.get("race") else ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        cp = tmp + "/demo"
        shutil.copytree(d, cp)
        n = 3
        good = [sh(cp + "/demo.sh", "/repo", timeout=300) for _ in range(n)]
        evil = [sh(cp + "/demo.sh", w, timeout=300) for _ in range(n)]
        g, e = [x.returncode for x in good], [x.returncode for x in evil]
        ok = all(x == 0 for x in g) and all(x not in (0, 2) or "panic" in y.stdout or "goroutine" in y.stdout for x, y in zip(e, evil))
        print(s["id"], "ok" if ok else "BAD", "unchanged:", g, "changed:", e, "" if ok else (good[0].stdout[-500:] + evil[0].stdout[-800:]))
        print("    ", evil[0].stdout.strip()[:150].replace("\n", " | "))
        if not ok:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
