"""Radau5: R01-R07."""
import concurrent.futures as cf
import os
import vlib, gradau

INCS = ["Radau5-NG/include", "common/include"]
CONFS = range(11)


def mc_cfg(xmax, nmax):
    return open(os.path.join(vlib.SPEC, "MCRadau.cfg")).read().replace("XMax = 3", "XMax = %d" % xmax).replace("NMax = 4", "NMax = %d" % nmax)


def record(ck, confs, count, seed, tag="", longs=()):
    src = os.path.join(vlib.VERIF, "harness", "radau.cpp")
    jobs = [(src, ck.work.path("radau%d" % c), INCS, ["-DCONF=%d" % c]) for c in confs]
    todo = [j for j in jobs if not os.path.exists(j[1])]
    for out, err in vlib.compile_cpp(todo).items():
        if err:
            raise vlib.ModelError("the harness does not compile:\n" + err)
    outs = [(c, ck.work.path("radau%d%s.out" % (c, tag))) for c in confs]
    vlib.run_harness([[ck.work.path("radau%d" % c), f, str(seed), str(count)] + (["long"] if c in longs else []) for c, f in outs])
    traces = []
    for c, f in outs:
        for k, t in enumerate(gradau.split_traces(vlib.read_events(f))):
            traces.append(("conf %d scenario %d seed %d" % (c, k, seed), gradau.group(t)))
            r = vlib.reuse(t)
            if r:
                traces.append(("conf %d scenario %d seed %d, reuse" % (c, k, seed), r))
        os.unlink(f)
    return traces


def run(ck):
    thorough = vlib.TIER == "thorough"
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(lambda: ck.model("MCRadau", mc_cfg(6, 8) if thorough else mc_cfg(4, 5), workers="4" if thorough else "2"))
        traces = record(ck, CONFS, 330 if thorough else 44, vlib.SEED, longs=CONFS if thorough else [c for c in CONFS if c % 3 == vlib.SEED % 3])
        fm.result()
    ck.judge("RadauTrace", traces, procs=7)
    ck.cover["instantiations"] = len(CONFS)
    ck.cover["attempts"] = sum(1 for _, t in traces for r in t if r["e"] == "att")
    ck.cover["newton_iterations"] = sum(len(r["it"]) for _, t in traces for r in t if r["e"] == "att")
    ck.assumptions += ["the harness problems are representative; the right-hand side object sees every evaluation",
                       "comparisons are made up to the rounding errors stated in RadauTrace.tla"]
