#!/usr/bin/env python3
"""Development aid: writes seeded/<id>/ from a description (see the files in /tmp/seed).
usage: mkseed.py DESC.py...   DESC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++), INCS, FLAGS, TIMEOUT"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
for f in sys.argv[1:]:
    g = {"FLAGS": "", "RUN": "", "DEMO": None}
    exec(open(f).read(), g)
    d = os.path.join(V, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x" % (t, t), shell=True, check=True)
        for fn, old, new in g["EDITS"]:
            p = os.path.join(t, fn)
            s = open(p, newline="").read()
            if s.count(old) != 1:
                print(g["ID"], "pattern found", s.count(old), "times:", old[:60]); sys.exit(1)
            open(p, "w", newline="").write(s.replace(old, new))
        patch = subprocess.run(["git", "-C", t, "diff"], stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(patch)
        open(os.path.join(d, "demo.cpp"), "w").write(g["DEMO"])
        incs = " ".join('-I"$PWD/%s"' % i for i in g["INCS"])
        open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# run in the repository; 0: as it should be, else the defect shows
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -O1 %s %s -o "$t/demo" "$here/demo.cpp" -llapack -lblas || exit 2
cd "$t" && timeout 120 ./demo %s
""" % (g["FLAGS"], incs, g["RUN"]))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        # the demo on both trees
        r = []
        for tree in ("patched", "plain"):
            if tree == "plain":
                subprocess.run(["git", "-C", t, "checkout", "-q", "--", "."], check=True)
            p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            r.append("%s=%d (%s)" % (tree, p.returncode, p.stdout.strip()[-150:].replace("\n", " | ")))
        print(g["ID"], *r)
    finally:
        shutil.rmtree(t, ignore_errors=True)
