"""The event log: G01."""
import concurrent.futures as cf
import json, os
import vlib, glog, grodas, gradau, grock4, c_rodas, c_radau, c_rock4
from c_linalg import scripts

CFG = "SPECIFICATION LSpec"


def container(ck, thorough):
    exe = ck.work.path("logger")
    err = vlib.compile_cpp([(os.path.join(vlib.VERIF, "harness", "logger.cpp"), exe, ["common/include"],
                             ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])])[exe]
    if err:
        raise vlib.ModelError("the harness does not compile:\n" + err)
    got = scripts(ck, "LogGen", "", 2000 if thorough else 300, 40, vlib.SEED, "gen")
    f = ck.work.path("scripts.txt")
    with open(f, "w") as fh:
        for k, (ops,) in enumerate(got):
            fh.write("%d\n" % k + "".join(" ".join(map(str, op)) + "\n" for op in ops) + "end\n")
    vlib.run_harness([[exe, f + ".out", f]])
    traces = []
    ts = grodas.split_traces(vlib.read_events(f + ".out"))
    if len(ts) < len(got) and not any(r["e"] == "crash" for t in ts for r in t):
        ts.append([{"e": "crash"}])
    for i, t in enumerate(ts):
        for r in t:
            if r["e"] == "read":
                r["lines"] = glog.lines(r["text"], False)
                r["read"] = r["lines"] is not None
                if not r["read"]:
                    r["lines"] = []
        traces.append(("script %d, seed %d" % (i, vlib.SEED), t))
    return traces


def run(ck):
    thorough = vlib.TIER == "thorough"
    os.environ["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0"
    h = os.path.join(vlib.VERIF, "harness")
    lg = ["-DLOGOUT"]
    jobs = [(os.path.join(h, "rodas.cpp"), ck.work.path("rodas%d" % c), c_rodas.INCS, lg + ["-DCONF=%d" % c]) for c in c_rodas.CONFS]
    jobs += [(os.path.join(h, "radau.cpp"), ck.work.path("radau%d" % c), c_radau.INCS, lg + ["-DCONF=%d" % c]) for c in c_radau.CONFS]
    jobs += [(os.path.join(h, "rock4.cpp"), ck.work.path("rock4"), c_rock4.INCS, lg + ["-DLOGROCK4", "-DGCC", "-DNDEBUG"])]
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(lambda: ck.model("MCLog", open(os.path.join(vlib.SPEC, "MCLog.cfg")).read().replace("MaxAttempts = 3", "MaxAttempts = %d" % (4 if thorough else 3)), workers="2"))
        for out, err in vlib.compile_cpp(jobs).items():
            if err:
                raise vlib.ModelError("the harness does not compile:\n" + err)
        fm.result()
    ck.judge("LogTrace", container(ck, thorough), procs=4)
    # integrations
    seed = vlib.SEED
    do = c_rodas.record(ck, c_rodas.CONFS, 64 if thorough else 16, seed)
    ra = c_radau.record(ck, c_radau.CONFS, 220 if thorough else 22, seed)
    tabs = c_rock4.tables(ck, ck.work.path("rock4"))
    if len(tabs) != 50:
        ck.violation("the coefficients cannot be recovered: crash or hang", {"tables": len(tabs)})
        return
    tf = ck.work.path("tables.json")
    with open(tf, "w") as fh:
        json.dump(tabs, fh)
    rk = c_rock4.record(ck, ck.work.path("rock4"), tabs, 1600 if thorough else 192)
    kw = {"spec": "LSpec", "invariant": "LConforms"}
    ck.judge("RodasLog", do, procs=7, **kw)
    ck.judge("RadauLog", ra, procs=7, **kw)
    ck.judge("Rock4Log", rk, procs=7, extra_env={"TABLES": tf}, **kw)
    logs = [r for ts in (do, ra, rk) for _, t in ts for r in t if r["e"] == "log"]
    ck.cover["logs_of_integrations"] = len(logs)
    ck.cover["written_with_all_digits"] = sum(1 for r in logs if r["exact"])
    count = {}
    for r in logs:
        for e in r["all"]:
            count[e["ev"]] = count.get(e["ev"], 0) + 1
    ck.cover["events"] = count
    ck.assumptions += ["the attempts of an integration are those deduced from the evaluations of the right-hand side",
                       "what the log writes is compared with the digits it writes"]
