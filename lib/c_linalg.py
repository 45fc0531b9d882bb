"""Linear algebra and containers: M01, M02."""
import concurrent.futures as cf
import ast, os, re
import vlib, grodas


def scripts(ck, module, consts, num, length, seed, name):
    """Behaviours of a generating module, by TLC's simulator."""
    cfg = "SPECIFICATION GSpec\nCONSTANTS\n  Length = %d\n%s\nCHECK_DEADLOCK FALSE\n" % (length, consts)
    r = vlib.run_tlc(module, cfg, ck.work, name, extra=("-simulate", "num=%d" % num, "-depth", str(length + 2), "-seed", str(seed)),
                     timeout=600)
    if r.error or r.violation:
        raise vlib.ModelError("%s: %s" % (module, r.error or r.out[-2000:]))
    text = re.sub(r"\s+", " ", r.out)
    out = []
    for m in re.finditer(r'<< ?"SCRIPT"', text):
        depth, i = 0, m.start()
        while True:
            if text.startswith("<<", i):
                depth += 1; i += 2
            elif text.startswith(">>", i):
                depth -= 1; i += 2
                if depth == 0:
                    break
            else:
                i += 1
        out.append(ast.literal_eval(text[m.start():i].replace("<<", "[").replace(">>", "]"))[1:])
    if len(out) < num // 2:
        raise vlib.ModelError("%s: %d scripts\n%s" % (module, len(out), r.out[-2000:]))
    return out


def m01_models(ck, thorough):
    cfg = open(os.path.join(vlib.SPEC, "MCLinalg.cfg")).read()
    ck.model("MCLinalg", cfg, name="real", workers="3", timeout=800)
    ck.model("MCLinalg", cfg.replace("Mode = 1", "Mode = 2").replace("N = 3", "N = 2"), name="complex", workers="3", timeout=800)
    ck.model("MCLinalg", cfg.replace("Mode = 1", "Mode = 3"), name="protocol", workers="1", timeout=800)


def m01(ck, thorough):
    with cf.ThreadPoolExecutor(3) as ex:
        fm = ex.submit(m01_models, ck, thorough)
        exe = ck.work.path("linalg")
        fb = ex.submit(vlib.compile_cpp, [(os.path.join(vlib.VERIF, "harness", "linalg.cpp"), exe, ["common/include"],
                                           ["-DGCC", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"])])
        num = 3000 if thorough else 600
        lines = []
        for i, form in enumerate(("full", "band", "hess")):
            got = scripts(ck, "LinalgGen", '  Jacs = {1, 2}\n  Shifts = {1}\n  Forms = {"%s"}' % form, num, 14, vlib.SEED * 10 + i, form)
            lines += [(f, "".join(ops)) for f, ops in got]
        err = fb.result()[exe]
        if err:
            raise vlib.ModelError("the harness does not compile:\n" + err)
        fm.result()
    chunk = 150
    jobs = []
    for c in range(0, len(lines), chunk):
        f = ck.work.path("s%d.txt" % c)
        with open(f, "w") as fh:
            for k, (form, ops) in enumerate(lines[c:c + chunk]):
                fh.write("%d %s %s\n" % (c + k, form, ops))
        jobs.append((f, len(lines[c:c + chunk]), c == 0))
    vlib.run_harness([[exe, f + ".out", str(vlib.SEED), f] + (["x"] if x else []) for f, _, x in jobs])
    traces = []
    for f, num, x in jobs:
        ts = grodas.split_traces(vlib.read_events(f + ".out"))
        if len(ts) < num + (6 if x else 0) and not any(r["e"] == "crash" for t in ts for r in t):
            ts.append([{"e": "crash"}])
        traces += [("script %s of %s, seed %d" % (i, os.path.basename(f), vlib.SEED), t) for i, t in enumerate(ts)]
        os.unlink(f + ".out")
    ck.judge("LinalgTrace", traces, procs=7)
    recs = [r for _, t in traces for r in t]
    for w in ("jac", "decomr", "decomc", "solver", "solvec"):
        ck.cover[w] = sum(1 for r in recs if r["e"] == w)
    ck.cover["singular"] = sum(1 for r in recs if r["e"] in ("decomr", "decomc") and r["exc"])
    ck.assumptions += ["sizes 1 to 17 and 70 or 140, seventeen banded shapes", "LAPACK and BLAS are trusted, not their use",
                       "after a singular factorisation nothing is solved before the next one, as the integrators do"]


def m02(ck, thorough):
    with cf.ThreadPoolExecutor(3) as ex:
        fm = ex.submit(lambda: ck.model("MCVectors", open(os.path.join(vlib.SPEC, "MCVectors.cfg")).read(), workers="2", timeout=800))
        src = os.path.join(vlib.VERIF, "harness", "vectors.cpp")
        flags = ["-DGCC", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
        exes = [ck.work.path("vectors%d" % k) for k in range(3)]
        fb = ex.submit(vlib.compile_cpp, [(src, exes[0], ["common/include"], flags), (src, exes[1], ["common/include"], flags + ["-DALIGN_BLOCKED"]),
                                          (src, exes[2], ["common/include"], flags + ["-DDEBUG"])])
        got = scripts(ck, "VectorsGen", "  Objects = {1, 2, 3, 4, 5, 6, 7, 8, 9}\n  Users = 2", 2400 if thorough else 480, 40, vlib.SEED, "gen")
        for exe, err in fb.result().items():
            if err:
                raise vlib.ModelError("the harness does not compile:\n" + err)
        fm.result()

    def line(op):
        return " ".join(" ".join(map(str, a)) if isinstance(a, list) else str(a) for a in op)
    chunk, jobs = 60, []
    for c in range(0, len(got), chunk):
        f = ck.work.path("v%d.txt" % c)
        with open(f, "w") as fh:
            for k, (ops,) in enumerate(got[c:c + chunk]):
                fh.write("%d %d\n" % (c + k, len(ops)) + "".join(line(op) + "\n" for op in ops))
        exe = exes[(c // chunk) % 3]
        jobs.append((exe, f, len(got[c:c + chunk])))
    vlib.run_harness([[exe, f + ".out", str(vlib.SEED), f] for exe, f, _ in jobs])
    traces = []
    for exe, f, num in jobs:
        ts = grodas.split_traces(vlib.read_events(f + ".out"))
        if len(ts) < num and not any(r["e"] == "crash" for t in ts for r in t):
            ts.append([{"e": "make", "n": 1, "users": []}, {"e": "crash"}])
        for i, t in enumerate(ts):
            if t and t[0]["e"] != "make":
                t.insert(0, {"e": "make", "n": 1, "users": []})
            traces.append(("%s script %d of %s, seed %d" % (os.path.basename(exe), i, os.path.basename(f), vlib.SEED), t))
        os.unlink(f + ".out")
    ck.judge("VectorsTrace", traces, procs=7)
    count = {}
    for _, t in traces:
        for r in t:
            if r["e"] == "op":
                count[r["op"]] = count.get(r["op"], 0) + 1
    ck.cover["operations"] = count
    ck.assumptions += ["sizes 1 to 17; vectors of one size", "views are not used after the death of the vector they look at",
                       "plain, ALIGN_BLOCKED and DEBUG builds, with the address sanitizer"]


def run(ck):
    os.environ["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0"
    {"M01": m01, "M02": m02}[ck.prop](ck, vlib.TIER == "thorough")
