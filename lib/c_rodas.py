"""Rodas: D01-D05."""
import concurrent.futures as cf
import os
import vlib, grodas

INCS = ["Rodas-NG/include", "common/include"]
CONFS = range(10)


def mc_cfg(xmax, nmax):
    return open(os.path.join(vlib.SPEC, "MCRodas.cfg")).read().replace("XMax = 4", "XMax = %d" % xmax).replace("NMax = 4", "NMax = %d" % nmax)


def record(ck, confs, count, seed, tag="", longs=()):
    src = os.path.join(vlib.VERIF, "harness", "rodas.cpp")
    jobs = [(src, ck.work.path("rodas%d" % c), INCS, ["-DCONF=%d" % c]) for c in confs]
    todo = [j for j in jobs if not os.path.exists(j[1])]
    for out, err in vlib.compile_cpp(todo).items():
        if err:
            raise vlib.ModelError("the harness does not compile:\n" + err)
    outs = [(c, ck.work.path("rodas%d%s.out" % (c, tag))) for c in confs]
    vlib.run_harness([[ck.work.path("rodas%d" % c), f, str(seed), str(count)] + (["long"] if c in longs else []) for c, f in outs])
    traces = []
    for c, f in outs:
        for t in grodas.split_traces(vlib.read_events(f)):
            k = t[0].get("k", 0) if t else 0
            traces.append(("conf %d scenario %d seed %d" % (c, k, seed), grodas.group(t)))
            r = vlib.reuse(t)
            if r:
                traces.append((traces[-1][0] + ", reuse", r))
        os.unlink(f)
    return traces


def run(ck):
    thorough = vlib.TIER == "thorough"
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(lambda: ck.model("MCRodas", mc_cfg(5, 6) if thorough else mc_cfg(3, 4), workers="4" if thorough else "2"))
        traces = record(ck, CONFS, 160 if thorough else 32, vlib.SEED, longs=CONFS if thorough else [c for c in CONFS if c % 2 == vlib.SEED % 2])
        fm.result()
    ck.judge("RodasTrace", traces, procs=7)
    ck.cover["instantiations"] = len(CONFS)
    ck.cover["attempts"] = sum(1 for _, t in traces for r in t if r["e"] == "try")
    ck.assumptions += ["the harness problems are representative; the right-hand side object sees every evaluation",
                       "comparisons are made up to the rounding errors stated in RodasTrace.tla"]
