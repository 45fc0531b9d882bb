"""Rock4L: L01, L02."""
import concurrent.futures as cf
import json, os
import vlib, grodas

INCS = ["Rock4-L/include", "common/include"]


def build(ck):
    src = os.path.join(vlib.VERIF, "harness", "rock4l.cpp")
    out = ck.work.path("rock4l")
    err = vlib.compile_cpp([(src, out, INCS, ["-DGCC", "-DNDEBUG"])])[out]
    if err:
        raise vlib.ModelError("the harness does not compile:\n" + err)
    return out


def group(events, limit=400):
    """The calls of a step: from one whose argument is the user's vector to the next (book-keeping)."""
    rec = []; i = 0; n = len(events)
    while i < n:
        e = events[i]
        if e["e"] != "start":
            rec.append({"e": "crash"} if e["e"] == "crash" else {"e": "shape"})
            return rec
        st = e; rec.append(st); i += 1
        body = []
        while i < n and events[i]["e"] == "F":
            body.append(events[i]); i += 1
        end = events[i] if i < n else {"e": "crash"}
        i += 1
        starts = [k for k, f in enumerate(body) if f["in"] == st["id"]]
        if body and (not starts or starts[0] != 0):
            rec.append({"e": "opaque"})
        else:
            for k, s in enumerate(starts):
                nx = starts[k + 1] if k + 1 < len(starts) else len(body)
                rec.append({"e": "step", "calls": nx - s, "y": body[s]["y"]})
                if len(rec) > limit:
                    rec.append({"e": "cut"})
                    return rec
        if end["e"] != "end" or end["exc"] == 2:
            rec.append({"e": "crash"}); return rec
        rec.append(end)
    return rec


def run(ck):
    thorough = vlib.TIER == "thorough"
    with cf.ThreadPoolExecutor(2) as ex:
        cfg = open(os.path.join(vlib.SPEC, "MCRock4L.cfg")).read()
        fm = ex.submit(lambda: ck.model("MCRock4L", cfg.replace("TMax = 7", "TMax = 12") if thorough else cfg, workers="4" if thorough else "2"))
        exe = build(ck)
        f = ck.work.path("rock4l.tab")
        vlib.run_harness([[exe, f, "tab"]])
        tabs = [e for e in vlib.read_events(f) if e["e"] == "table"]
        fm.result()
    if len(tabs) != 50:
        ck.violation("the polynomials cannot be recovered: crash or hang", {"tables": len(tabs)})
        return
    if ck.prop in ("L01", "ANY"):
        ck.cover["degrees"] = len(tabs)
    ck.judge("Rock4LMethod", [("degree %d" % t["d"], [t]) for t in tabs], procs=4)
    tf = ck.work.path("tables.json")
    with open(tf, "w") as fh:
        json.dump([{"d": t["d"], "p": t["p"]} for t in tabs], fh)
    total = 4000 if thorough else 600
    step = total // 8
    outs = [(k * step, ck.work.path("rock4l-%d.out" % k)) for k in range(8)]
    vlib.run_harness([[exe, f, str(vlib.SEED), str(step), str(frm)] for frm, f in outs])
    traces = []
    for frm, f in outs:
        for i, t in enumerate(grodas.split_traces(vlib.read_events(f))):
            traces.append(("scenario %d seed %d" % (frm + i, vlib.SEED), group(t)))
        os.unlink(f)
    ck.judge("Rock4LTrace", traces, procs=7, extra_env={"TABLES": tf})
    recs = [r for _, t in traces for r in t]
    ck.cover["steps"] = sum(1 for r in recs if r["e"] == "step")
    ck.cover["calls"] = sum(1 for r in recs if r["e"] == "start")
    ck.cover["exceptions_seen"] = sum(1 for r in recs if r["e"] == "end" and r["exc"] == 1)
    ck.cover["degrees_used"] = len({r["calls"] for r in recs if r["e"] == "step"})
    ck.assumptions += ["the steps are told from one another by the calls whose argument is the user's vector",
                       "comparisons are made up to rounding errors; the affine step is checked up to the rounding of the fourth power of step times operator"]
