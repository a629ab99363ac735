#!/usr/bin/env python3
"""plant.py ID PROPERTY SPEC  -- SPEC is a python file with EDITS=[(file, old, new)...], DEMO (bash), NEEDS, BREAKS.
Makes /verif/seeded/ID after confirming everything in a scratch copy of /repo; then says which of CHECKS catch it.
plant.py --recheck [ID...]: runs the property's check against the planted bugs again."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

def sh(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout, env=env)
    return r.returncode, r.stdout.decode(errors="replace")

def scratch():
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    os.chmod(d, 0o755)
    shutil.copytree("/repo", d + "/repo", symlinks=True)
    for n in os.listdir("/opt/vp"):
        p = "/opt/vp/" + n
        if os.path.isfile(p) and n.split(".")[-1] in ("sh", "py", "json"):
            with open(p) as f: t = f.read()
            with open(d + "/" + n, "w") as f: f.write(t.replace("/opt/vp", d).replace("/repo", d + "/repo"))
    return d

def tests(d):
    rc, o = sh("bash %s/test.sh %s/o.json" % (d, d), d + "/repo")
    res = json.load(open(d + "/o.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base["stable"]
    if isinstance(want, dict): want = list(want)
    missing = set(want) - set(res["passed"])
    return rc, missing, o

def demo(d, path):
    x = tempfile.mkdtemp(prefix="demo", dir="/tmp")
    for n in os.listdir(path):
        if not n.endswith((".diff", ".patch")) and n != "meta.json": shutil.copy(os.path.join(path, n), x)
    try: return sh("bash %s/demo.sh" % x, d + "/repo", timeout=300)
    finally: shutil.rmtree(x)

def check(d, prop, seed=1):
    env = dict(os.environ, NOJA_REPO=d + "/repo", NOJA_OUT=d + "/out", VERIF_SEED=str(seed))
    rc, o = sh("python3 %s/check.py %s --tier quick --seed %d" % (VERIF, prop, seed), VERIF, env)
    v = [l for l in o.splitlines() if l.startswith("VIOLATION property=%s " % prop)]
    return rc, v, o

def ours(f, memo={}):
    """Numbers of the lines of f our own commits changed."""
    if f not in memo:
        memo[f] = set()
        for m in re.finditer(r"^@@ -\S+ \+(\d+)(?:,(\d+))? @@", sh("git diff -U0 585ce93 HEAD -- %s" % f, "/repo")[1], re.M):
            memo[f] |= set(range(int(m.group(1)), int(m.group(1)) + int(m.group(2) or 1)))
    return memo[f]


def main():
    a = sys.argv[1:]
    if a[0] == "--recheck":
        for i in a[1:] or sorted(os.listdir(VERIF + "/seeded")):
            meta = json.load(open(VERIF + "/seeded/%s/meta.json" % i))
            d = scratch()
            try:
                rc, o = sh("git apply %s/seeded/%s/patch.diff" % (VERIF, i), d + "/repo")
                if rc: print(i, "PATCH DOES NOT APPLY", o); continue
                rc, v, o = check(d, meta["property"])
                print(i, meta["property"], "caught" if rc == 1 and v else "MISSED rc=%d" % rc, (o.splitlines() or [""])[-1], flush=True)
                if rc not in (0, 1): print(o[-3000:])
            finally: shutil.rmtree(d)
        return
    ident, prop, spec = a[:3]
    S = {}
    exec(open(spec).read(), S)
    dst = VERIF + "/seeded/" + ident
    os.makedirs(dst, exist_ok=True)
    with open(dst + "/demo.sh", "w") as f: f.write("#!/bin/bash\n" + S["DEMO"].lstrip())
    for n, t in S.get("FILES", {}).items():
        with open(dst + "/" + n, "w") as f: f.write(t)
    with open(dst + "/meta.json", "w") as f: json.dump({"property": prop, "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, f, indent=1)
    d = scratch()
    good = True
    try:
        rc, o = sh("git status --short; git diff --quiet", d + "/repo")
        if rc: sys.exit("the tree is not clean")
        rc, missing, o = tests(d)
        if rc or missing: print("clean tests fail", rc, list(missing)[:3], o[-500:]); good = False
        rc, o = demo(d, dst)
        if rc: print("DEMO FAILS ON CLEAN TREE", rc, o[-1500:]); good = False
        for f, old, new in S["EDITS"]:
            p = d + "/repo/" + f
            with open(p, newline="") as h: t = h.read()
            if "\r\n" in t: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1: print("EDIT matches %d times: %s" % (t.count(old), old)); good = False
            with open(p, "w", newline="") as h: h.write(t.replace(old, new, 1))
        rc, diff = sh("git diff", d + "/repo")
        with open(dst + "/patch.diff", "w", newline="") as f: f.write(subprocess.run(["git", "diff", "--binary"], cwd=d + "/repo", stdout=subprocess.PIPE).stdout.decode())
        cur = None
        line = 0
        removed = 0
        for l in diff.splitlines():
            m = re.match(r"--- a/(.*)", l)
            if m: cur = m.group(1); continue
            m = re.match(r"@@ -(\d+)", l)
            if m: line = int(m.group(1)); continue
            if l.startswith("-"):
                removed += 1
                if line in ours(cur): print("LINE IS NOT ORIGINAL:", l); good = False
            if not l.startswith("+"): line += 1
        if not removed: print("NO ORIGINAL LINE CHANGED"); good = False
        rc, missing, o = tests(d)
        if rc or missing: print("TESTS FAIL WITH PATCH", rc, list(missing)[:5], o[-800:]); good = False
        rc, o = demo(d, dst)
        if rc == 0: print("DEMO PASSES WITH PATCH", o[-1500:]); good = False
        else: print("demo with patch: rc %d %s" % (rc, o.strip()[-200:]))
        print(ident, "OK" if good else "NOT GOOD", flush=True)
        if good:
            for c in [prop] + S.get("CHECKS", []):
                rc, v, o = check(d, c)
                print(ident, c, "caught" if rc == 1 and v else "MISSED rc=%d" % rc, (o.splitlines() or [""])[-1], flush=True)
                if rc not in (0, 1): print(o[-3000:])
    finally: shutil.rmtree(d)

main()
