"""SDIRKL: I01, I02."""
import concurrent.futures as cf
import os
import vlib, grodas

INCS = ["SDIRKL/include", "common/include", "SDIRKL/test/Lapl"]


def build(ck):
    src = os.path.join(vlib.VERIF, "harness", "sdirkl.cpp")
    out = ck.work.path("sdirkl")
    err = vlib.compile_cpp([(src, out, INCS, ["-DGCC", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"])])[out]
    if err:
        raise vlib.ModelError("the harness does not compile:\n" + err)
    return out


def models(ck, thorough):
    cfg = open(os.path.join(vlib.SPEC, "MCSdirkl.cfg")).read()
    one = cfg.replace("PP = 5", "PP = 7") if thorough else cfg
    ck.model("MCSdirkl", one, name="coefficients", workers="4" if thorough else "2", timeout=800)
    two = cfg.replace("Mode = 1", "Mode = 2").replace("Objects = {1}", "Objects = {1, 2}")
    ck.model("MCSdirkl", two.replace("PP = 5", "PP = 7") if thorough else two, name="histories", workers="2", timeout=800)


def run(ck):
    thorough = vlib.TIER == "thorough"
    os.environ["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0"
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(models, ck, thorough)
        exe = build(ck)
        f = ck.work.path("sdirkl.tab")
        vlib.run_harness([[exe, f, "tab"]])
        tabs = [e for e in vlib.read_events(f) if e["e"] in ("method", "crash")]
        fm.result()
    if len(tabs) != 5 or any(t["e"] != "method" for t in tabs):
        ck.violation("the methods cannot be run: crash or hang", {"methods": len(tabs)})
        return
    ck.judge("SdirklMethod", [(t["m"], [t]) for t in tabs], procs=2)
    total = 4000 if thorough else 480
    step = total // 8
    outs = [(k * step, ck.work.path("sdirkl-%d.out" % k)) for k in range(8)]
    vlib.run_harness([[exe, f, str(vlib.SEED), str(step), str(frm)] for frm, f in outs])
    traces = []
    for frm, f in outs:
        ts = grodas.split_traces(vlib.read_events(f))
        if len(ts) < step and not any(r["e"] == "crash" for t in ts for r in t):
            ts.append([{"e": "crash"}])
        for i, t in enumerate(ts):
            traces.append(("scenario %d seed %d" % (frm + i, vlib.SEED), t))
        os.unlink(f)
    ck.judge("SdirklTrace", traces, procs=7)
    recs = [r for _, t in traces for r in t]
    ck.cover["steps"] = sum(1 for r in recs if r["e"] == "step")
    ck.cover["objects"] = sum(1 for r in recs if r["e"] == "make")
    ck.cover["refusals"] = sum(1 for r in recs if r["e"] == "step" and r["exc"] == 1)
    ck.assumptions += ["operators with a symmetric matrix and eigenvalues in ]-inf, 0]; rotations for complex values",
                       "the operator of the harness solves its systems in extended precision"]
