"""Rock4 with parallel loops: K06."""
import concurrent.futures as cf
import os, subprocess
import vlib, grodas


def build(ck):
    rep = vlib.REPO
    inc = ["-I" + os.path.join(rep, d) for d in ("Rock4-NG/include", "common/include")] + ["-I" + os.path.join(vlib.VERIF, "harness")]
    h = os.path.join(vlib.VERIF, "harness")
    W = ck.work.path

    def sh(*cmds):
        for c in cmds:
            p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                return p.stdout[:3000]
    base = ["g++", "-O1", "-w", "-DGCC", "-DNDEBUG"] + inc
    with cf.ThreadPoolExecutor(3) as ex:
        a = ex.submit(sh, base + ["-c", "-DROCK4_OMP", "-fopenmp", "-fsanitize=thread", os.path.join(h, "rock4omp.cpp"), "-o", W("a.o")])
        b = ex.submit(sh, base + ["-c", os.path.join(h, "omprt.cpp"), "-o", W("b.o")])
        c = ex.submit(sh, base + [os.path.join(h, "rock4omp.cpp"), "-o", W("ser")])
        errs = [f.result() for f in (a, b, c)]
    err = next((e for e in errs if e), None) or sh(["g++", W("a.o"), W("b.o"), "-lgomp", "-o", W("par")])
    if err:
        raise vlib.ModelError("the harness does not compile:\n" + err)
    return W("par"), W("ser")


def shrink(r):
    """Without the reads of cells nobody writes in the region (they conflict with nothing)."""
    wr = {(a[2], a[3]) for a in r["acc"] if a[1] != "r"}
    r["acc"] = [a for a in r["acc"] if a[2] > 0 or a[1] == "b" or (a[2], a[3]) in wr]
    return r


def run(ck):
    thorough = vlib.TIER == "thorough"
    cfg = open(os.path.join(vlib.SPEC, "MCOmpLoop.cfg")).read()
    cfg = cfg.replace("N = 3\n  T = 2", "N = 4\n  T = 3" if thorough else "N = 3\n  T = 3")
    with cf.ThreadPoolExecutor(2) as ex:
        fm = ex.submit(lambda: ck.model("MCOmpLoop", cfg, workers="4" if thorough else "2"))
        par, ser = build(ck)
        fm.result()
    total = 1600 if thorough else 160
    step = total // 8
    jobs = []
    for k in range(8):
        for exe, n in ((par, "p"), (ser, "s")):
            jobs.append([exe, ck.work.path("omp-%s-%d.out" % (n, k)), str(vlib.SEED), str(step), str(k * step)])
    vlib.run_harness(jobs)
    traces = []; regions = accesses = switches = 0; sites = 0
    for k in range(8):
        tp = grodas.split_traces(vlib.read_events(ck.work.path("omp-p-%d.out" % k)))
        ts = grodas.split_traces(vlib.read_events(ck.work.path("omp-s-%d.out" % k)))
        for i, t in enumerate(tp):
            rec = []
            for e in t:
                if e["e"] == "region":
                    accesses += len(e["acc"]); regions += 1
                    rec.append(shrink(e))
                elif e["e"] == "summary":
                    switches += e["switches"]; sites = max(sites, e["sites"])
                elif e["e"] == "result":
                    s = [x for x in ts[i] if x["e"] == "result"] if i < len(ts) else []
                    if s:
                        rec.append({"e": "result", "par": e, "ser": s[0]})
                    else:
                        rec.append({"e": "crash"})
                else:
                    rec.append({"e": "crash"})
            traces.append(("scenario %d seed %d" % (k * step + i, vlib.SEED), rec))
    ck.judge("OmpTrace", traces, procs=7)
    ck.cover.update(regions=regions, accesses=accesses, switches=switches, parallel_loops=sites)
    ck.assumptions += ["the accesses are those of the code compiled by gcc with thread instrumentation; regions free of conflicting accesses have the same result in every interleaving"]
