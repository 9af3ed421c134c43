"""Running TLC: model checking, graph dumps and trace validation."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

CP   = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")

class MachineryError(Exception):
    pass

def _java(args, cwd, env, timeout, heap):
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={cwd}", "-cp", CP, "tlc2.TLC"] + args
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired as e:
        raise MachineryError(f"TLC timed out after {timeout}s: {' '.join(args)}")
    return p.returncode, p.stdout

def _prepare(scratch, cfg_text, name):
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, name + "_run.cfg"), "w") as f:
        f.write(cfg_text)
    return d

def _stats(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))

def model_check(scratch, module, cfg, workers="auto", timeout=600, heap="4g", extra=(), dump=None, env=None, deadlock=False):
    """Exhaustive run. Returns dict(states, transitions, ok, out, dump)."""
    d = _prepare(scratch, cfg, module)
    try:
        args = ["-workers", str(workers), "-fp", "1", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
                "-config", module + "_run.cfg"]
        if not deadlock:
            args += ["-deadlock"]
        if dump:
            args += ["-dump", "dot,actionlabels", os.path.join(d, "graph")]
        args += list(extra) + [module + ".tla"]
        e = dict(os.environ); e.update(env or {})
        rc, out = _java(args, d, e, timeout, heap)
        gen, dist = _stats(out)
        ok = rc == 0
        if dump:
            g = os.path.join(d, "graph.dot")
            if os.path.exists(g):
                shutil.move(g, dump)
        if rc not in (0, 12, 13, 10, 11) :
            raise MachineryError(f"TLC failed on {module} (rc={rc}):\n{out[-4000:]}")
        return dict(states=dist, transitions=gen, ok=ok, out=out)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def _unescape(s):
    return s.replace('\\"', '"').replace('\\\\', '\\')

def _validate_one(scratch, module, cfg, path, timeout, heap):
    d = _prepare(scratch, cfg, module)
    try:
        env = dict(os.environ, TRACE=path)
        args = ["-workers", "1", "-deadlock", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
                "-config", module + "_run.cfg", module + ".tla"]
        rc, out = _java(args, d, env, timeout, heap)
        m = re.findall(r'<<"VERDICT", (\d+), "((?:[^"\\]|\\.)*)">>', out.replace("\n", " "))
        if rc != 0 or not m:
            raise MachineryError(f"TLC trace run failed on {module} (rc={rc}):\n{out[-6000:]}")
        lines, bad = m[-1]
        return int(lines), json.loads(_unescape(bad)), _stats(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def validate(scratch, module, traces, cfg=None, chunks=4, timeout=600, heap="3g"):
    """traces: list of traces, each a list of event dicts (first one a reset event).
    Returns (lines, bad) where bad is a list of dicts clause/trace/line/want/got.
    The trace spec must print <<"VERDICT", n, ToJson(bad)>> once all lines are consumed."""
    cfg = cfg or "SPECIFICATION TraceSpec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n"
    chunks = max(1, min(chunks, len(traces)))
    sizes = [0] * chunks; parts = [[] for _ in range(chunks)]
    for i in sorted(range(len(traces)), key=lambda i: -len(traces[i])):
        j = sizes.index(min(sizes)); parts[j].append(i); sizes[j] += len(traces[i])
    files, wanted = [], []
    for j, idx in enumerate(parts):
        path = os.path.join(scratch, f"trace-{module}-{os.getpid()}-{time.time_ns()}-{j}.ndjson")
        n = 0
        with open(path, "w") as f:
            for i in sorted(idx):
                for k, ev in enumerate(traces[i]):
                    e = dict(ev); e["t"] = i; e["i"] = k
                    f.write(json.dumps(e, ensure_ascii=True) + "\n"); n += 1
        files.append(path); wanted.append(n)
    try:
        with ThreadPoolExecutor(chunks) as ex:
            res = list(ex.map(lambda p: _validate_one(scratch, module, cfg, p, timeout, heap), files))
    finally:
        for p in files:
            os.unlink(p)
    total, bad, st, tr = 0, [], 0, 0
    for (n, b, (g, dd)), w in zip(res, wanted):
        if n != w:
            raise MachineryError(f"trace spec {module} consumed {n} of {w} lines")
        total += n; bad += b; st += dd; tr += g
    return dict(lines=total, bad=bad, states=st, transitions=tr)
