"""Running the command line tools: in a fork of this process (fast), or as `python -m` (real)."""
import json, os, runpy, signal, subprocess, sys, time

def run(tool, args, scratch, real=False, idle=None, timeout=30):
    """-> (exit status or text, standard output). idle(seconds) is called while the tool runs."""
    out = os.path.join(scratch, "cli.out")
    fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    er = os.open(out + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    if real:
        p = subprocess.Popen([sys.executable, "-m", f"ekosis.cli.{tool}"] + args, stdin=subprocess.DEVNULL, stdout=fd, stderr=er, cwd=scratch)
        pid = p.pid
    else:
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.dup2(fd, 1); os.dup2(er, 2)
                sys.argv = [f"ekosis.cli.{tool}"] + args
                for m in [m for m in sys.modules if m.startswith("ekosis.cli")]: del sys.modules[m]
                runpy.run_module(f"ekosis.cli.{tool}", run_name="__main__", alter_sys=True)
                rc = 0
            except SystemExit as e: rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                import traceback; traceback.print_exc()
            finally:
                try: sys.stdout.flush(); sys.stderr.flush()
                finally: os._exit(rc & 255)
    os.close(fd); os.close(er)
    end = time.time() + timeout
    rc = None
    while rc is None:
        w, st = os.waitpid(pid, os.WNOHANG)
        if w: rc = os.waitstatus_to_exitcode(st)
        elif time.time() > end:
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); rc = -99
        elif idle: idle(0.002)
        else: time.sleep(0.002)
    with open(out, encoding="utf-8", errors="replace") as f: return rc, f.read()

def values(text):
    """The JSON values (objects and arrays) an output contains."""
    d, i, vs = json.JSONDecoder(), 0, []
    while i < len(text):
        if text[i] in "{[":
            try:
                v, j = d.raw_decode(text, i); vs.append(v); i = j; continue
            except ValueError: pass
        i += 1
    return vs

def canon(v): return json.dumps(v, sort_keys=True, ensure_ascii=True)
