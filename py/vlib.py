"""Driver library: builds the harness from /repo, runs scenarios through it, has TLC judge the
recorded events against the specification, handles known findings, evidence and reporting."""
import json, os, subprocess, sys, time, shutil, re, hashlib, tempfile, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
NPROC = 8


class CheckError(Exception):
    pass


def build_harness(*what):
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run([os.path.join(VERIF, "harness", "build.sh"), BUILD] + list(what), env=dict(os.environ, REPO=REPO),
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("harness build failed:\n" + r.stderr[-4000:])
    return os.path.join(BUILD, "hx")


def workdir(pid):
    d = os.path.join(BUILD, "run", "%s.%d" % (pid, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "scratch"))
    return d


def run_scenarios(hx, scenarios, wd, timeout_s=5, tag="s"):
    """scenarios: list of lists of ops. Returns list of {"id","end","out"} in order."""
    n = min(NPROC, max(1, len(scenarios) // 4 + 1))
    files = []
    for k in range(n):
        fi = os.path.join(wd, "%s.%d.in" % (tag, k))
        with open(fi, "w") as f:
            for i in range(k, len(scenarios), n):
                f.write(json.dumps({"id": i, "ops": scenarios[i]}) + "\n")
        files.append(fi)

    def one(fi):
        sc = fi + ".scratch"
        os.makedirs(sc, exist_ok=True)
        r = subprocess.run([hx, fi, fi + ".out", sc, str(timeout_s)], capture_output=True, text=True)
        shutil.rmtree(sc, ignore_errors=True)
        if r.returncode != 0:
            raise CheckError("harness failed: " + r.stderr[-500:])
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, files))
    res = [None] * len(scenarios)
    for fi in files:
        with open(fi + ".out") as f:
            for line in f:
                d = json.loads(line)
                res[d["id"]] = d
        os.unlink(fi)
        os.unlink(fi + ".out")
    if any(r is None for r in res):
        raise CheckError("harness lost a scenario")
    return res


STATS = {"states": 0, "transitions": 0, "tlc_runs": 0}


T0 = time.time()
TIMED_OUT = -999


def tlc(module, env, wd, cfg=None, extra=(), heap="2g", timeout=800, workers="1"):
    """Runs TLC on spec/<module>.tla; returns (returncode, output). Counts states."""
    md = tempfile.mkdtemp(prefix="tlc", dir=wd)
    cmd = ["java", "-Djava.io.tmpdir=" + md, "-Xmx" + heap, "-Xss16m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4",
           "-cp", TLAJAR + ":" + cm_jar(), "tlc2.TLC", "-metadir", md, "-noTE", "-workers", workers,
           "-config", os.path.join(SPEC, cfg or module + ".cfg")] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    lg = md + ".out"
    try:
        with open(lg, "w") as h:
            rc = subprocess.run(cmd, stdout=h, stderr=subprocess.STDOUT, env=e, timeout=max(20, min(timeout, 850 - (time.time() - T0))), cwd=wd).returncode
    except subprocess.TimeoutExpired:
        rc = TIMED_OUT
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = open(lg, errors="replace").read()
    os.unlink(lg)
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    if m:
        STATS["transitions"] += int(m[-1][0])
        STATS["states"] += int(m[-1][1])
    STATS["tlc_runs"] += 1
    return rc, out


_cm = None


def cm_jar():
    global _cm
    if _cm is None:
        import glob
        js = [j for j in glob.glob("/opt/veriftools/tla/*.jar") if not j.endswith("tla2tools.jar")]
        _cm = ":".join(js)
    return _cm


REJ = re.compile(r'^<<\s*"REJECT",\s*(-?\d+),\s*(.*)>>\s*$')


def judge(module, events, wd, chunk=None, heap="2g", timeout=800, env=None, split_ok=True):
    """Has TLC replay `events` (list of dicts with an integer field id) against spec/<module>.tla.
    Returns {id: clauses-text} of the rejected events.  Events with equal "grp" stay together."""
    if not events:
        return {}
    groups = []
    for e in events:
        if groups and "grp" in e and groups[-1][0].get("grp") == e["grp"]:
            groups[-1].append(e)
        else:
            groups.append([e])
    n = min(NPROC, max(1, len(groups) // 8))
    if chunk:
        n = max(n, (len(groups) + chunk - 1) // chunk)
    chunks = [sum(groups[k::n], []) for k in range(n)]

    def run(evs, name):
        f = os.path.join(wd, name + ".ndjson")
        with open(f, "w") as h:
            for e in evs:
                h.write(json.dumps(e) + "\n")
        en = {"TRACE": f}
        en.update(env or {})
        rc, out = tlc(module, en, wd, heap=heap, timeout=timeout)
        rej = {}
        # PrintT may wrap long tuples over several lines: join
        joined = re.sub(r"\n(?=\s)", " ", out)
        for line in joined.splitlines():
            m = REJ.match(line.strip())
            if m:
                rej.setdefault(int(m.group(1)), re.sub(r"\s+", " ", m.group(2)))
        # TLC evaluates the steps again when it prints the way to an error
        if len(set(re.findall(r'"REJECT",\s*(-?\d+)', out))) != len(rej):
            raise CheckError("unreadable verdicts of %s:\n%s" % (module, out[-6000:]))
        ok = rc == 0 and "Model checking completed. No error has been found." in out
        if not ok:
            if rej:
                pass    # what was judged before an error or the end of the time stands
            elif rc == TIMED_OUT:
                return TIMED_OUT, out
            else:
                os.rename(f, f + ".bad")
                if "Parsing or semantic analysis failed" in out:
                    raise CheckError("specification does not parse: " + out[out.find("rror"):][:1200])
                return None, out
        os.unlink(f)
        return rej, out

    errors, late = [], []

    def rec(evs, name):
        if len(errors) >= 4:
            return {}
        rej, out = run(evs, name)
        if rej == TIMED_OUT:
            late.append(name)
            return {}
        if rej is not None:
            return rej
        gs = []
        for e in evs:
            if gs and "grp" in e and gs[-1][0].get("grp") == e["grp"]:
                gs[-1].append(e)
            else:
                gs.append([e])
        if not split_ok:
            raise CheckError("TLC error on %s:\n%s" % (module, out[-3000:]))
        if len(gs) == 1:
            msg = re.sub(r"\s+", " ", out[-1500:])
            i = out.find("Error:")
            errors.append(1)
            return {evs[0]["id"]: "{\"the specification cannot evaluate this observation\"} " +
                    re.sub(r"\s+", " ", out[i:i + 400] if i >= 0 else msg)}
        h = len(gs) // 2
        a = rec(sum(gs[:h], []), name + "a")
        b = rec(sum(gs[h:], []), name + "b")
        a.update(b)
        return a

    rej = {}
    with ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(lambda t: rec(t[1], "%s.%d" % (module, t[0])), list(enumerate(chunks))):
            rej.update(r)
    if late and not rej:
        raise CheckError("TLC timed out on " + module)
    return rej


def load_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid]


class Check:
    """One property check: collects rejected events, evidence and the verdict."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.viol = []      # (text, replay dict)
        self.known = []
        self.validated = 0
        self.wd = workdir(pid)
        self.hx = build_harness()
        self.assumptions = []

    def tools(self):
        """the command line programs, built from the working tree"""
        build_harness("tools")
        return {n: os.path.join(BUILD, n) for n in ("decoder", "encoder", "synthesizer")}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def run(self, scenarios, timeout_s=5):
        return run_scenarios(self.hx, scenarios, self.wd, timeout_s)

    def sample(self, x, n=3):
        if len(self.samples) < n:
            self.samples.append(x)

    def decide(self, module, scenarios, make_events, names=None, env=None, timeout_s=5, label="", chunk=None):
        """Run scenarios, turn each result into events, judge; confirm each rejection by a second run.
        names: optional dict scenario index -> known-finding name."""
        names = names or {}
        res = self.run(scenarios, timeout_s)
        events, owner = [], {}
        eid = 0

        def evs_of(i, r):
            nonlocal eid
            out = []
            for e in make_events(i, r):
                e["id"] = eid
                owner[eid] = i
                eid += 1
                e.setdefault("grp", i)
                out.append(e)
            return out
        skipped = 0
        for i, r in enumerate(res):
            if r["end"] == "skipped":
                skipped += 1
            else:
                events += evs_of(i, r)
        rej = judge(module, events, self.wd, env=env, chunk=chunk)
        self.validated += len(scenarios)
        bad = {}
        for k, cl in sorted(rej.items()):
            bad.setdefault(owner[k], []).append((k, cl))
        if bad:
            # confirm: rerun only these scenarios from scratch
            idx = sorted(bad, key=lambda i: (i in names, i))     # the first failures suffice, but every named one
            idx = [i for i in idx if i not in names][:24] + [i for i in idx if i in names]
            bad = {i: bad[i] for i in idx}
            res2 = run_scenarios(self.hx, [scenarios[i] for i in idx], self.wd, 3 * timeout_s, tag="c")
            owner.clear()
            eid = 0
            ev2 = []
            for i, r in zip(idx, res2):
                if r["end"] != "skipped":
                    ev2 += evs_of(i, r)
            rej2 = judge(module, ev2, self.wd, env=env, chunk=chunk)
            bad2 = {}
            for k, cl in sorted(rej2.items()):
                bad2.setdefault(owner[k], []).append((k, cl))
            evmap = {e["id"]: e for e in ev2}
            for i in idx:
                if i not in bad2 and res[i]["end"] == "hang":
                    continue          # slow machine, not a behaviour of the code
                if i not in bad2:     # undefined behaviour shows differently from run to run
                    bad2[i] = bad[i]
                    evmap.update({e["id"]: e for e in events if e["id"] == bad[i][0][0]})
                cl = bad2[i][0][1]
                if i in names:
                    self.known.append((names[i], cl))
                else:
                    self.viol.append((cl, {"module": module, "label": label, "clauses": cl,
                                           "scenario": scenarios[i], "event": evmap[bad2[i][0][0]]}))
        if skipped and not self.viol:
            raise CheckError("%d scenarios were not run after repeated hangs" % skipped)
        return res, events, bad

    def violation(self, text, replay):
        self.viol.append((text, replay))

    def finish(self, level="model_checking", extra=None):
        findings = {f["name"]: f for f in load_findings(self.pid) if f.get("status") == "known"}
        unlisted = [(n, c) for n, c in self.known if n not in findings]
        for n, c in unlisted:
            self.viol.append((c, {"finding": n, "clauses": c}))
        for n in sorted({n for n, _ in self.known if n in findings}):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, findings[n]["what"]))
        cov = {"states": STATS["states"], "transitions": STATS["transitions"],
               "traces_validated_against_impl": self.validated, "samples": self.samples or ["none"],
               "tlc_runs": STATS["tlc_runs"]}
        cov.update(self.cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.viol:
            rd = os.path.join(BUILD, "replay")
            os.makedirs(rd, exist_ok=True)
            for k, (text, rep) in enumerate(self.viol[:10]):
                p = os.path.join(rd, "%s.%d.json" % (self.pid, k))
                with open(p, "w") as f:
                    json.dump(rep, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                print("  " + text[:600])
            print("%d violation(s) of %s" % (len(self.viol), self.pid))
        else:
            print("property %s held: %d implementation traces, %d spec states, %.1fs" %
                  (self.pid, self.validated, STATS["states"], time.time() - self.t0))
        return 1 if self.viol else 0

    def cleanup(self):
        shutil.rmtree(self.wd, ignore_errors=True)
