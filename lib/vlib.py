"""Common machinery of the checks: build harnesses from /repo, run TLC, report."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ODES_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = 8


class ModelError(Exception):
    """Something of ours failed: not a statement about the code."""


def numcls():
    """Directory of the compiled Java definitions of Num (built if needed)."""
    src = os.path.join(VERIF, "java", "Num.java")
    tag = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    d = os.path.join(BUILD, "cls-" + tag)
    if not os.path.exists(os.path.join(d, "Num.class")):
        os.makedirs(BUILD, exist_ok=True)
        t = tempfile.mkdtemp(dir=BUILD)
        subprocess.run(["javac", "-nowarn", "-cp", TLAJAR, "-d", t, src], check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d


class Work:
    """Scratch directory of one check."""

    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="w-%s-" % name, dir=BUILD)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def compile_cpp(jobs):
    """jobs: list of (source, output, include dirs of /repo, extra flags).
    Returns {output: None or error text}."""
    def one(j):
        src, out, incs, flags = j
        cmd = ["g++", "-std=c++17", "-w", "-O1", "-fno-fast-math", "-ffp-contract=off",
               "-I" + os.path.join(VERIF, "harness")]
        cmd += ["-I" + os.path.join(REPO, i) for i in incs]
        cmd += ["-o", out, src] + flags + ["-llapack", "-lblas"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return out, (None if p.returncode == 0 else p.stdout[-3000:])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return dict(ex.map(one, jobs))


def run_harness(jobs, timeout=300):
    """jobs: list of (argv). Output goes to the files they name; a harness
    reports crashes itself, in its output file."""
    def one(argv):
        try:
            p = subprocess.run(argv, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               timeout=timeout, text=True, errors="replace")
            return p.returncode, p.stderr[-2000:]
        except subprocess.TimeoutExpired:
            return -99, "timeout"
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, jobs))


class TlcResult:
    def __init__(self):
        self.ok = False; self.violation = None; self.states = 0; self.distinct = 0
        self.out = ""; self.error = None; self.state = {}


def run_tlc(module, cfg_text, work, name, real=False, workers="1", env=None, timeout=600, xmx="3g", extra=(), deadlock=True):
    """Run TLC on spec/<module>.tla. real: numbers are real (class Num)."""
    md = work.path("md-" + name)
    os.makedirs(md, exist_ok=True)
    cfg = work.path(name + ".cfg")
    open(cfg, "w").write(cfg_text)
    cp = [TLAJAR, CMJAR]
    if real:
        cp.insert(0, numcls())
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xss16m", "-Xmx" + xmx,
           "-cp", ":".join(cp), "tlc2.TLC", "-workers", str(workers), "-metadir", md,
           "-config", cfg, "-noGenerateSpecTE", "-lncheck", "final"] + ([] if deadlock else ["-deadlock"]) + list(extra) + [module]
    r = TlcResult()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        r.out = p.stdout
    except subprocess.TimeoutExpired as t:
        r.out = (t.stdout or b"").decode(errors="replace") if isinstance(t.stdout, bytes) else (t.stdout or "")
        r.error = "timeout"
    shutil.rmtree(md, ignore_errors=True)
    r.out = "\n".join(l for l in r.out.split("\n") if not l.startswith(("Loading ", "Parsing file", "Semantic processing")))
    if "Failed to match" in r.out:
        r.error = r.out[:3000]
        return r
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out):
        pass
    if m:
        r.states = int(m.group(1).replace(",", "")); r.distinct = int(m.group(2).replace(",", ""))
    m = re.search(r"Error: (Invariant|Action property|Temporal propert\w+|Property) ?([\w]*).*violated", r.out)
    if "Model checking completed. No error has been found" in r.out:
        r.ok = True
    elif m:
        r.violation = m.group(2) or m.group(1)
    elif "Error: Deadlock reached" in r.out:
        r.violation = "Deadlock"
    elif extra and "-simulate" in extra and r.error is None and "Error:" not in r.out:
        r.ok = True
    elif r.error is None:
        i = r.out.find("Error:")
        r.error = r.out[max(i, 0):][:3000]
    # last state of the counterexample
    blocks = re.split(r"\nState \d+: ", r.out)
    if r.violation and len(blocks) > 1:
        for k, v in re.findall(r"/\\ (\w+) = (.*?)(?=\n/\\ |\n\n|\Z)", blocks[-1], re.S):
            r.state[k] = v.strip()
    return r


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop; self.level = level; self.t0 = time.time()
        self.work = Work(prop)
        self.states = 0; self.transitions = 0; self.traces = 0
        self.samples = []; self.cover = {}; self.assumptions = []
        self.violations = []
        self.known = load_known(prop)

    # -- exhaustive models of the specification (nothing here depends on /repo)
    def model(self, module, cfg, name=None, workers="2", timeout=600, env=None, deadlock=False, real=False, xmx="3g"):
        r = run_tlc(module, cfg, self.work, name or module, workers=workers, timeout=timeout, env=env,
                    deadlock=deadlock, real=real, xmx=xmx)
        if not r.ok:
            raise ModelError("%s: %s" % (module, r.violation or r.error) + r.out[-2000:])
        self.states += r.distinct; self.transitions += r.states
        self.cover.setdefault("models", []).append({"module": module, "states": r.distinct, "transitions": r.states})
        return r

    # -- traces of the real code against the specification
    def traces_against(self, module, traces, consts="", procs=4, timeout=800, invariant="Conforms", extra_env=None, spec="TraceSpec"):
        """traces: list of (name, [records]). Returns list of rejected (name, detail)."""
        traces = [t for t in traces if t[1]]
        if not traces:
            raise ModelError("no trace")
        procs = max(1, min(procs, len(traces)))
        # balance by size
        order = sorted(range(len(traces)), key=lambda i: -sum(rec_w(r) for r in traces[i][1]))
        bins = [[] for _ in range(procs)]
        load = [0] * procs
        for i in order:
            b = load.index(min(load))
            bins[b].append(i); load[b] += sum(rec_w(r) for r in traces[i][1])

        def job(b):
            todo = list(bins[b]); rejected = []; st = 0; tr = 0; k = 0
            while todo:
                k += 1
                f = self.work.path("%s-%d-%d.json" % (module, b, k))
                with open(f, "w") as fh:
                    json.dump([traces[i][1] for i in todo], fh)
                env = {"TRACES": f, "PROP": self.prop}
                if extra_env:
                    env.update(extra_env)
                cfg = "SPECIFICATION %s\nINVARIANT %s\n%s\n" % (spec, invariant, consts)
                r = run_tlc(module, cfg, self.work, "%s-%d-%d" % (module, b, k), real=True, env=env, timeout=timeout)
                st += r.distinct; tr += r.states
                if r.ok:
                    break
                if r.violation is None:
                    raise ModelError("%s: %s" % (module, r.error))
                i = int(r.state.get("tr", "0"))
                if not 1 <= i <= len(todo):
                    raise ModelError("%s: no trace number in the counterexample\n%s" % (module, r.out[-3000:]))
                rejected.append((todo[i - 1], r.violation, r.state))
                if len(rejected) >= 3:
                    break
                todo.pop(i - 1)
            return rejected, st, tr

        numcls()
        with cf.ThreadPoolExecutor(procs) as ex:
            res = list(ex.map(job, range(procs)))
        out = []
        for rej, st, tr in res:
            self.states += st; self.transitions += tr
            for i, v, s in rej:
                out.append((traces[i][0], v, s, traces[i][1]))
        self.traces += len(traces) - len(out)
        if len(self.samples) < 3:
            for n, t in traces[:2]:
                self.samples.append({"trace": n, "records": len(t), "first": t[0]})
        return out

    # -- as traces_against, and reports what is rejected (after a second look)
    def judge(self, module, traces, **kw):
        rej = self.traces_against(module, traces, **kw)
        for name, v, state, recs in rej[:3]:
            again = self.traces_against(module, [(name, recs)], **dict(kw, procs=1))
            if not again:
                raise ModelError("a rejection was not repeated: " + name)
            bad = re.findall(r'<<"(\w+)", "([^"]*)">>', state.get("bad", ""))
            mine = sorted({w for p, w in bad if p in (self.prop, "ALL")})
            l = int(state.get("l", "1") or 1)
            self.violation("%s: %s: %s" % (module, name, "; ".join(mine) or v),
                           {"trace": name, "invariant": v, "labels": bad, "position": l,
                            "state": state, "records": recs[max(0, l - 4):l + 2]})

    def violation(self, what, payload):
        """what: short identification; payload: written to the replay file."""
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(f, "w") as fh:
            json.dump({"property": self.prop, "what": what, "seed": SEED, "tier": TIER, "detail": payload}, fh, indent=1)
        for k in self.known:
            if k in what:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what)); return
        self.violations.append((what, f))
        print("# " + what)
        print("VIOLATION property=%s replay=%s" % (self.prop, f), flush=True)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:6] or ["none"]}
        cov.update(self.cover)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        self.work.close()
        return 1 if self.violations else 0


def rec_w(r):
    return 1 + sum(len(v) for v in r.values() if isinstance(v, list))


def load_known(prop):
    ks = []
    try:
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\w+) id=\[(.*?)\]", l)
            if m and m.group(1) == prop:
                ks.append(m.group(2))
    except OSError:
        pass
    return ks


def reuse(events):
    """The calls with a used object which were repeated with a new one, as a trace of their own."""
    out = []
    for a, b in zip(events, events[1:]):
        if b["e"] == "twin" and a["e"] in ("end", "again"):
            out += [dict(a, e="again"), b]
    return out


def read_events(f):
    ev = []
    with open(f, errors="replace") as fh:
        for line in fh:
            line = line.strip()
            if not line:
                continue
            try:
                ev.append(json.loads(line))
            except ValueError:
                ev.append({"e": "crash", "sig": -1, "line": line[:200]})
    return ev
