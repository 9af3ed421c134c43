"""Shared context of a check: scratch space, evidence, verdicts, known findings."""
import json, os, random, shutil, subprocess, sys, tempfile, time, atexit, signal
from concurrent.futures import ThreadPoolExecutor

HERE  = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO  = os.environ.get("VERIF_REPO", "/repo")   # VERIF_REPO: scratch copies, for experiments only
PY    = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
from lib import tlc
from lib.tlc import MachineryError

class Ctx:
    def __init__(self, prop, tier=None, level="model_checking"):
        self.prop   = prop
        self.tier   = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.level  = level
        self.rng    = random.Random(f"{prop}-{self.seed}")
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=os.environ.get("VERIF_SCRATCH") or base)
        atexit.register(self.cleanup)
        self.t0     = time.time()
        try: os.unlink(os.path.join(HERE, "evidence", "replay", f"{prop}.json"))
        except OSError: pass
        self.cov    = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assume = []
        self.viol   = []     # list of dicts
        self.known_hits = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def log(self, *a):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ---------------------------------------------------------------- model
    def model(self, module, cfg, name=None, expect=True, **kw):
        r = tlc.model_check(self.scratch, module, cfg, **kw)
        self.cov["states"] += r["states"]; self.cov["transitions"] += r["transitions"]
        self.log(f"model {name or module}: {r['states']} distinct states, {r['transitions']} transitions, ok={r['ok']}")
        self.cov.setdefault("models", []).append(dict(model=name or module, states=r["states"], transitions=r["transitions"]))
        if not r["ok"] and expect:
            # The specification itself is violated: an error of the machinery, not of the code.
            raise MachineryError(f"specification {module} violates its own properties:\n{r['out'][-3000:]}")
        return r

    # ---------------------------------------------------------------- traces
    def validate(self, module, traces, clauses=None, what="", cfg=None, chunks=None, replays=None, timeout=800):
        """Validate traces; mismatches whose clause is selected become violations of this property.
        clauses: None = all, else a predicate on the clause name."""
        traces = [t for t in traces if t]
        if not traces:
            raise MachineryError("no traces recorded")
        r = tlc.validate(self.scratch, module, traces, cfg=cfg, chunks=chunks or self.pick(4, 8), timeout=timeout)
        self.cov["states"] += r["states"]; self.cov["transitions"] += r["transitions"]
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["trace_events"] = self.cov.get("trace_events", 0) + r["lines"]
        mine = [b for b in r["bad"] if clauses is None or clauses(b["clause"])]
        other = [b for b in r["bad"] if b not in mine]
        self.log(f"traces {what or module}: {len(traces)} traces, {r['lines']} events, "
                 f"{len(mine)} mismatches for this property, {len(other)} for others")
        for b in other[:3]:
            self.log("   (other property)", b)
        for b in mine:
            t = traces[b["t"]]
            self.violation(clause=b["clause"], want=b.get("want"), got=b.get("got"), line=b["i"], what=what or module,
                           trace=t[:b["i"] + 1][-60:], reset=t[0], replay=(replays[b["t"]] if replays else None))
        if len(self.cov["samples"]) < 4:
            k = self.rng.randrange(len(traces))
            self.cov["samples"].append(dict(source=what or module, events=traces[k][:12]))
        return r

    def violation(self, **d):
        self.viol.append(d)

    # ---------------------------------------------------------------- drivers
    def driver(self, script, payload, timeout=300, env=None, python=PY):
        """Run a driver process (code under test) with a JSON payload on stdin; returns its JSON result or
        dict(crash=...) if it died or hung."""
        d = tempfile.mkdtemp(prefix="drv-", dir=self.scratch)
        e = base_env(d); e.update(env or {})
        payload = dict(payload, scratch=d)
        try:
            p = subprocess.Popen([python, os.path.join(HERE, "drivers", script)], cwd=d, env=e, text=True,
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 start_new_session=True)
            try:
                out, err = p.communicate(json.dumps(payload), timeout=timeout)
            except subprocess.TimeoutExpired:
                kill_group(p); out, err = p.communicate()
                return dict(crash=f"driver {script} did not finish in {timeout}s", stderr=err[-2000:])
            finally:
                kill_group(p)
            res = os.path.join(d, "result.json")
            if os.path.exists(res):
                with open(res) as f:
                    return json.load(f)
            return dict(crash=f"driver {script} ended with {p.returncode} and no result", stderr=err[-3000:])
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def drivers(self, script, payloads, timeout=300, env=None, par=8):
        with ThreadPoolExecutor(par) as ex:
            return list(ex.map(lambda p: self.driver(script, p, timeout, env), payloads))

    # ---------------------------------------------------------------- end
    def finish(self):
        known = load_known(self.prop)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        new = []
        for v in self.viol:
            k = next((k for k in known if all(str(v.get(f)) == str(x) or (f == "match" and x in json.dumps(v)) for f, x in k["where"].items())), None)
            if k:
                if k not in self.known_hits:
                    self.known_hits.append(k)
            else:
                new.append(v)
        for k in self.known_hits:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        self.cov["known_findings_seen"] = len(self.known_hits)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.assume, violations=len(new))
        with open(os.path.join(HERE, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            rd = os.path.join(HERE, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump(new[:20], f, indent=1)
            for v in new[:5]:
                self.log("mismatch:", json.dumps({k: v.get(k) for k in ("clause", "what", "line", "want", "got")})[:600])
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            self.cleanup()
            sys.exit(1)
        self.log(f"held: {self.cov['states']} states, {self.cov['traces_validated_against_impl']} traces")
        self.cleanup()
        sys.exit(0)

def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass

def base_env(scratch):
    e = {k: v for k, v in os.environ.items() if not k.startswith("ECOENV_")}
    e.update(PYTHONPATH=REPO + ":" + HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUNBUFFERED="1",
             ECOENV_BUFFER_DIR=scratch, ECOENV_LOG_DIR=scratch, ECOENV_LOCK_DIR=scratch, ECOENV_LOG_BUF_SIZE="0",
             LANG="C.UTF-8", HOME=scratch, TMPDIR=scratch)
    return e

def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["open"] if k["property"] == prop]
