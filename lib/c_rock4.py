"""Rock4: K01-K07 (K06: see c_rock4omp)."""
import concurrent.futures as cf
import json, os
import vlib, grock4, grodas

INCS = ["Rock4-NG/include", "common/include"]


def build(ck):
    src = os.path.join(vlib.VERIF, "harness", "rock4.cpp")
    out = ck.work.path("rock4")
    err = vlib.compile_cpp([(src, out, INCS, ["-DGCC", "-DNDEBUG"])])[out]
    if err:
        raise vlib.ModelError("the harness does not compile:\n" + err)
    return out


def tables(ck, exe):
    f = ck.work.path("rock4.tab")
    vlib.run_harness([[exe, f, "tab"]])
    tabs = grock4.tables(vlib.read_events(f))
    return tabs


def mc_cfg(tmax, rmax):
    return open(os.path.join(vlib.SPEC, "MCRock4.cfg")).read().replace("TMax = 3", "TMax = %d" % tmax).replace("RhoMax = 2", "RhoMax = %d" % rmax)


def record(ck, exe, tabs, total):
    dec = grock4.Decoder(tabs)
    step = total // 8
    outs = [(k * step, ck.work.path("rock4-%d.out" % k)) for k in range(8)]
    vlib.run_harness([[exe, f, str(vlib.SEED), str(step), str(frm)] for frm, f in outs])
    traces = []
    for frm, f in outs:
        for i, t in enumerate(grodas.split_traces(vlib.read_events(f))):
            traces.append(("scenario %d seed %d" % (frm + i, vlib.SEED), grock4.group(t, dec)))
            r = vlib.reuse(t)
            if r:
                traces.append((traces[-1][0] + ", reuse", r))
        os.unlink(f)
    return traces


def run(ck):
    if ck.prop == "K06":
        import c_rock4omp
        return c_rock4omp.run(ck)
    thorough = vlib.TIER == "thorough"
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(lambda: ck.model("MCRock4", mc_cfg(5, 3) if thorough else mc_cfg(4, 3), workers="4" if thorough else "2"))
        exe = build(ck)
        tabs = tables(ck, exe)
        fm.result()
    if len(tabs) != 50 or any(len(t["w"]) != 10 or len(t["stab"]) != 2 for t in tabs):
        # the harness did not survive
        ck.violation("the coefficients cannot be recovered: crash or hang", {"tables": len(tabs)})
        return
    tf = ck.work.path("tables.json")
    with open(tf, "w") as fh:
        json.dump(tabs, fh)
    env = {"TABLES": tf}
    if ck.prop in ("K05", "K03"):
        ck.judge("Rock4Method", [("degree %d" % t["d"], [t]) for t in tabs], procs=6, extra_env=env)
        ck.cover["degrees"] = len(tabs)
    traces = record(ck, exe, tabs, 3200 if thorough else 384)
    ck.judge("Rock4Trace", traces, procs=7, extra_env=env)
    ck.cover["attempts"] = sum(1 for _, t in traces for r in t if r["e"] == "try")
    ck.cover["rejected_attempts_seen"] = sum(1 for _, t in traces for a, b in zip(t, t[1:]) if b["e"] == "prep" and not b["go"] and a["e"] in ("try", "R"))
    ck.cover["degrees_used"] = len({r["d"] for _, t in traces for r in t if r["e"] == "try"})
    ck.assumptions += ["the problems are autonomous and contain a clock, from which steps and degrees are deduced",
                       "comparisons are made up to the rounding errors stated in Rock4Trace.tla"]
