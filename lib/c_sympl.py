"""SymplecticRK: S01-S04."""
import concurrent.futures as cf
import json, os
import vlib, grodas

INCS = ["SymplecticRK/include", "common/include"]
PARTS = [(2, 6), (7, 11), (12, 16)]


def build(ck):
    src = os.path.join(vlib.VERIF, "harness", "sympl.cpp")
    jobs, names = [], []
    for lo, hi in PARTS:
        for ld in (0, 1):
            out = ck.work.path("sympl-%d-%d" % (lo, ld))
            names.append((out, lo, hi, ld))
            jobs.append((src, out, INCS, ["-DGCC", "-DNDEBUG", "-DSLO=%d" % lo, "-DSHI=%d" % hi, "-fsanitize=address,undefined",
                                          "-fno-sanitize-recover=all"] + (["-DLD"] if ld else [])))
    for out, err in vlib.compile_cpp(jobs).items():
        if err:
            raise vlib.ModelError("the harness does not compile:\n" + err)
    return names


def models(ck, thorough):
    cfg = open(os.path.join(vlib.SPEC, "MCSympl.cfg")).read()
    one = cfg.replace("Steps = 2", "Steps = 4") if thorough else cfg.replace("Steps = 2", "Steps = 3")
    ck.model("MCSympl", one, name="iterations", workers="2", timeout=800)
    two = cfg.replace("Mode = 1", "Mode = 2").replace("Steps = 2", "Steps = 5" if thorough else "Steps = 3")
    ck.model("MCSympl", two, name="sums", workers="2", timeout=800)


def run(ck):
    thorough = vlib.TIER == "thorough"
    os.environ["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0"
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(models, ck, thorough)
        exes = build(ck)
        jobs = [[exe, exe + ".tab", "tab"] for exe, lo, hi, ld in exes]
        vlib.run_harness(jobs)
        tabs = []
        for exe, lo, hi, ld in exes:
            ts = [e for e in vlib.read_events(exe + ".tab") if e["e"] in ("table", "crash")]
            if len(ts) != hi - lo + 1 or any(t["e"] != "table" for t in ts):
                ck.violation("steps with constant right-hand sides cannot be run: crash or hang", {"stages": [lo, hi]})
                fm.result()
                return
            tabs += ts
        fm.result()
    ck.judge("SymplMethod", [("%s, %d stages" % (t["prec"], t["s"]), [t]) for t in tabs], procs=3)
    tf = ck.work.path("tables.json")
    json.dump(tabs, open(tf, "w"))
    per = 480 if thorough else 60
    chunk = 60
    jobs = []
    for exe, lo, hi, ld in exes:
        num = per if lo < 12 else per // 2
        for frm in range(0, num, chunk):
            jobs.append((exe, frm, min(chunk, num - frm), "%s-%d.out" % (exe, frm)))
    vlib.run_harness([[exe, f, str(vlib.SEED), str(c), str(frm)] for exe, frm, c, f in jobs])
    traces = []
    for exe, frm, c, f in jobs:
        ts = grodas.split_traces(vlib.read_events(f))
        if len(ts) < c and not any(r["e"] == "crash" for t in ts for r in t):
            ts.append([{"e": "crash"}])
        for i, t in enumerate(ts):
            traces.append(("%s scenario %d seed %d" % (os.path.basename(exe), frm + i, vlib.SEED), t))
        os.unlink(f)
    ck.judge("SymplTrace", traces, procs=7, extra_env={"TABLES": tf})
    recs = [r for _, t in traces for r in t]
    ck.cover["steps"] = sum(1 for r in recs if r["e"] in ("step", "far"))
    ck.cover["failures"] = sum(1 for r in recs if r["e"] in ("out", "far") and not r["ok"])
    ck.cover["iterations"] = sum(r["m"] for r in recs if r["e"] == "step")
    ck.assumptions += ["stages 2 to 16, double and long double; sizes up to 19",
                       "the first step of an object, and the first one after the user changed the solution, are announced as such",
                       "what was carried before the user changes the solution may be added to the new one"]
