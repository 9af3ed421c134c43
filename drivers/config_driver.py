"""Fresh (forked) processes that read their configuration from a given environment, command line and file."""
import drv, os, sys, json, signal, socket, time, glob, subprocess
from drv import PAYLOAD, SCRATCH, result
import pydantic, asyncio, argparse, logging, logging.handlers, sqlite3, platform, uuid, typing      # not ekosis
try: import uvloop, sqlalchemy                                       # noqa: third-party modules only
except ImportError: pass

def put(d, path, v):
    for p in path[:-1]: d = d.setdefault(p, {})
    d[path[-1]] = v
PATH = {"STAT_GP": ["stats_keeper", "gather_period"], "STAT_HL": ["stats_keeper", "history_length"], "LOG_LEVEL": ["logging", "level"],
        "LOG_BUF_SIZE": ["logging", "file_logging", "buffer_size"], "LOG_MAX_SIZE": ["logging", "file_logging", "max_size_in_bytes"],
        "LOG_MAX_FILES": ["logging", "file_logging", "max_files"], "LOG_DIR": ["logging", "file_logging", "directory"],
        "LOCK_DIR": ["lock_directory"], "BUFFER_DIR": ["buffer_directory"], "TCP.1": ["tcp", "host"], "TCP.2": ["tcp", "port"],
        "UDP.1": ["udp", "host"], "UDP.2": ["udp", "port"], "UDS.1": ["uds", "directory"], "UDS.2": ["uds", "socket_file_name"]}
NUM = ("STAT_GP", "STAT_HL", "LOG_BUF_SIZE", "LOG_MAX_SIZE", "LOG_MAX_FILES", "TCP.2", "UDP.2")

def prepare(c):
    """In the child: environment, command line, configuration file."""
    for k in list(os.environ):
        if k.startswith("ECOENV_"): del os.environ[k]
    os.environ.update(c["env"])
    sys.argv = [c["script"], "-i", c["inst"]] + c.get("args", [])
    if c["hasfile"]:
        inst = {}
        for k, v in c["file"].items():
            if k.startswith("EXTRA."): put(inst, ["extra", k[6:]], v)
            else: put(inst, PATH[k], int(v) if k in NUM and v.isdigit() else v)
        doc = dict(instances={c["inst"]: inst, **c.get("others", {})})
        fn = f"{SCRATCH}/conf-{os.getpid()}.json"
        with open(fn, "w") as f: json.dump(doc, f)
        sys.argv += ["-c", fn]

def read(c):
    prepare(c)
    from ekosis.configuration.config_models import AppConfiguration
    a = AppConfiguration()
    g = {"STAT_GP": a.stats_keeper.gather_period, "STAT_HL": a.stats_keeper.history_length, "LOG_LEVEL": a.logging.level,
         "LOG_BUF_SIZE": a.logging.file_logging.buffer_size, "LOG_MAX_SIZE": a.logging.file_logging.max_size_in_bytes,
         "LOG_MAX_FILES": a.logging.file_logging.max_files, "LOG_DIR": a.logging.file_logging.directory, "LOCK_DIR": a.lock_directory,
         "BUFFER_DIR": a.buffer_directory, "name": a.name, "inst": a.instance}
    for n, x in (("TCP", a.tcp), ("UDP", a.udp)):
        if x: g[n + ".1"], g[n + ".2"] = x.host, x.port
    if a.uds: g["UDS.1"], g["UDS.2"] = a.uds.directory, a.uds.socket_file_name
    for n in c["names"]:
        if n in a.extra: g["EXTRA." + n] = a.extra[n]
    return {k: ("" if v is None else str(v)) for k, v in g.items()}

def fork(fn, out):
    sys.stdout.flush(); sys.stderr.flush()
    p = os.fork()
    if p: return p
    rc = 1
    try:
        n = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600); os.dup2(n, 1); os.dup2(n, 2)
        fn(); rc = 0
    except SystemExit as e: rc = 3
    except BaseException:
        import traceback; traceback.print_exc()
    finally:
        sys.stdout.flush(); os._exit(rc)

def tail(fn):
    try:
        with open(fn, errors="replace") as f: return f.read()[-300:]
    except OSError: return ""

def cfg(c):
    fn = f"{SCRATCH}/got.json"
    if os.path.exists(fn): os.unlink(fn)
    def child():
        g = read(c)
        with open(fn, "w") as f: json.dump(g, f)
    os.waitpid(fork(child, f"{SCRATCH}/out"), 0)
    try:
        with open(fn) as f: return dict(ev="cfg", c=c, names=c["names"], got=json.load(f), refused=0, err="")
    except FileNotFoundError: return dict(ev="cfg", c=c, names=c["names"], got={}, refused=1, err=tail(f"{SCRATCH}/out"))

# ---------------------------------------------------------------- a running application
def app(c, ready):
    prepare(c)
    from pydantic import BaseModel
    from typing import Any
    from ekosis.application_base import ApplicationBase
    from ekosis.requests.buffered_endpoint import buffered_endpoint
    from ekosis.configuration.config_models import AppConfiguration
    class M(BaseModel):
        out: Any = None
    @buffered_endpoint("x.buf", M)
    async def xbuf(dto): return True
    class X(ApplicationBase):
        async def setup_tasks(self, tasks):
            async def up():
                await asyncio.sleep(0.05)
                l = logging.getLogger()
                l.debug("lvl debug"); l.info("lvl info"); l.warning("lvl warn"); l.error("lvl error"); l.critical("lvl critical")
                with open(ready + ".x", "w") as f: json.dump(AppConfiguration().extra, f)
                os.rename(ready + ".x", ready)
            tasks.append(asyncio.create_task(up()))
    with X() as a: a.start()

def ask(s, route, data, udp=False):
    s.settimeout(2)
    m = json.dumps(dict(route_key=route, span_key=dict(trace_id=str(uuid.uuid4()), span_id=os.urandom(8).hex()), data=data)) + "\n"
    s.sendall(m.encode()); b = b""
    while not b.endswith(b"\n"):
        x = s.recv(65536)
        if not x: break
        b += x
        if udp: break
    return json.loads(b)

def run(c, limit=12):
    ready = f"{SCRATCH}/ready"; out = f"{SCRATCH}/out"
    if os.path.exists(ready): os.unlink(ready)
    pid = fork(lambda: app(c, ready), out)
    end, up, gone = time.time() + limit, 0, False
    while time.time() < end:
        if os.path.exists(ready): up = 1; break
        p, st = os.waitpid(pid, os.WNOHANG)
        if p: gone = True; break
        time.sleep(0.005)
    e = dict(ev="run", c=c, names=c["names"], up=up, err="", lock=[], log=[], tcp=[], udp=[], uds=[], buf=[], shown=[], cons=[], hist=-1,
             extra={}, console=int("-lco" in c.get("args", [])), fileonly=int("-lfo" in c.get("args", [])))
    if up:
        def files(pat): return sorted(x for d in c["dirs"] for x in glob.glob(f"{d}/{pat}"))
        e["lock"], e["uds"] = files("*.lock"), files("*.sock")
        e["log"] = files("*.log")
        e["buf"] = sorted({os.path.dirname(x) for x in files("*.sqlite")})
        with open(ready) as f: e["extra"] = {k: str(v) for k, v in json.load(f).items()}
        for kind, typ in (("tcp", socket.SOCK_STREAM), ("udp", socket.SOCK_DGRAM)):
            for h, p in c["addrs"]:
                with socket.socket(socket.AF_INET, typ) as s:
                    try:
                        s.connect((h, int(p))); r = ask(s, "eco.statistics.get", dict(type="current"), kind == "udp")
                        if r["status"] == 0: e[kind].append(f"{h}:{p}")
                    except (OSError, ValueError): pass
        if c.get("wait") and e["uds"]:
            time.sleep(c["wait"])
            with socket.socket(socket.AF_UNIX, socket.SOCK_STREAM) as s:
                s.connect(e["uds"][0]); e["hist"] = len(ask(s, "eco.statistics.get", dict(type="full"))["data"]["statistics"])
        def shown(fn):
            r = []
            with open(fn, errors="replace") as f:
                for line in f:
                    try: b = json.loads(line)["body"]
                    except (ValueError, KeyError, TypeError): continue
                    if b.startswith("lvl "): r.append(b[4:])
            return r
        os.kill(pid, signal.SIGTERM)
        end = time.time() + 8
        while time.time() < end and not os.waitpid(pid, os.WNOHANG)[0]: time.sleep(0.005)
        else:
            gone = time.time() < end
        if e["log"]: e["shown"] = shown(e["log"][0])
        e["cons"] = shown(out)
    else:
        e["err"] = tail(out)
    if not gone:
        try: os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
        except (ProcessLookupError, ChildProcessError): pass
    for d in c["dirs"]:
        for f in glob.glob(f"{d}/*"): os.unlink(f)
    return e

out = []
for j in PAYLOAD["cases"]:
    c = json.loads(json.dumps(j).replace("@S@", SCRATCH))
    for d in c.get("dirs", []): os.makedirs(d, exist_ok=True)
    if c["how"] == "cfg": e = cfg(c)
    else:
        e = run(c, limit=12)
        if c["how"] == "invalid": e = dict(ev="invalid", which=c["which"], refused=1 - e["up"], err=e["err"])
    for k in ("how", "dirs", "addrs", "args", "others", "script", "names", "wait", "which"):
        if "c" in e: e["c"].pop(k, None)
    e.update(i=0); out.append([e])
result(dict(traces=out))
