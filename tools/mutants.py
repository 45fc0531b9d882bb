#!/usr/bin/env python3
"""Development aid: apply small changes to copies of /repo and run checks.
usage: mutants.py FILE.json [name-prefix]   (list of [name, file, old, new, [props]])"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf

def one(m):
    name, f, old, new, props = m
    d = tempfile.mkdtemp(prefix="mu-", dir="/tmp/m")
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % d, shell=True, check=True)
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) < 1:
            return name + ": PATTERN NOT FOUND"
        n = s.replace(old, new, 1)
        open(p, "w").write(n)
        out = []
        for pr in props:
            r = subprocess.run(["timeout", "900", "python3", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), pr], env=dict(os.environ, ODES_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            first = [l for l in r.stdout.split("\n") if l.startswith("# ")]
            out.append("%s rc=%d %s" % (pr, r.returncode, (first[0][:150] if first else (r.stdout[-600:] if r.returncode > 1 else ""))))
        return name + ": " + " | ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    os.makedirs("/tmp/m", exist_ok=True)
    ms = json.load(open(sys.argv[1]))
    if len(sys.argv) > 2:
        ms = [m for m in ms if m[0].startswith(sys.argv[2])]
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, ms):
            print(r, flush=True)
