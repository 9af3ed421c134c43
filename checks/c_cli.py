"""C23: the command line tools against Cli (a recording server) and, on a running application, BufferedOps."""
import os, uuid
from lib import cover
from checks import c_buffered as cb

def key(R): return f"{uuid.UUID(int=R.getrandbits(128))}:{R.getrandbits(64):016x}"
TEXT = ["Retrieved data for the queue", "Database has been cleared.", "5 entries [moved]", "caf\u00e9 \u4e2d", "a {brace", "popped: yes", "x" * 300]

def answer(R, tool, flag, c):
    """What the server answers: the response and what of it the user must find in the output."""
    msg = R.choice(TEXT); sizes = dict(pending=R.randint(0, 10 ** 6), error=R.randint(0, 999))
    if tool == "stat":
        v = {"statistics": {"uptime": R.random(), "endpoint_data": {"a": {"b": [1, None, R.randint(0, 9)]}}, "timestamp": R.randint(0, 2 ** 40)}, "n": R.randint(0, 99)}
        v = [v, dict(v, n=-1)][:R.randint(1, 2)] if c["type"] == "full" else v
        return dict(data=dict(statistics=v), texts=[], vals=[v])
    if flag == "e10":
        v = [key(R) for _ in range(R.randint(0, 10))]
        return dict(data=dict(queue_data=v, request_data=None, message=msg), texts=[msg] + v, vals=[v])
    q = dict(route_key=c["rk"], receiving_paused=R.random() < 0.5, processing_paused=R.random() < 0.5, database_sizes=sizes) if tool == "bem" else \
        dict(route_key=c["rk"], send_process_paused=R.random() < 0.5, database_sizes=sizes)
    rd = R.choice([dict(data=dict(n=3, s="\u00e9 \"q\"", l=[1, [2], {}])), dict(a=None, b=2 ** 60), dict(x="{[")]) if flag in ("ins", "pop", "rp1") and R.random() < 0.8 else None
    if flag in ("ins", "pop", "rp1") and rd is None: q = None                  # no such request
    return dict(data=dict(queue_data=q, request_data=rd, message=msg), texts=[msg], vals=[v for v in (q, rd) if v is not None])

def line(R, o, ok=True):
    g = lambda x: "" if x == "-" else x
    tool, st, sd, rk, f1, f2, sk, ty, lv, sz = o
    c = dict(tool=tool, st=st, sd=sd, rk=R.choice(["app.queue", "a", "dice.roll-2", "\u00e9.x", "with space"]) if g(rk) else "", flags=[f for f in (g(f1), g(f2)) if f],
             sk=key(R) if sk == "key" else g(sk), type=g(ty), level=g(lv), size=g(sz))
    if tool == "log":
        ans = []
        other = [l for l in ("debug", "info", "warn", "error", "critical") if l != c["level"]]
        if c["level"]: l = R.choice(other); ans.append(dict(data=dict(level=l), texts=[l], vals=[]))
        if c["size"]: n = R.randint(200001, 900000); ans.append(dict(data=dict(size=n), texts=[str(n)], vals=[]))
        c["two"] = 0
    else: ans = [answer(R, tool, c["flags"][0] if c["flags"] else "", c)]
    c.pop("two", None)
    return dict(c=c, ans=ans, status=0, seed=R.randrange(10 ** 9))

FAIL = [100, 200, 300, 400, 600, 999]
def check_C23(ctx):
    R = ctx.rng
    ctx.model("CliSystem", f"SPECIFICATION Spec\nCONSTANTS NK = 2 Eps = {ctx.pick('{"h.a"}', '{"h.a", "h.b"}')}\nVIEW View\nCONSTRAINT Small\nPROPERTY OneQueue Doc\nCHECK_DEADLOCK FALSE\n", timeout=ctx.pick(300, 1500))
    dump = os.path.join(ctx.scratch, "cl.dot")
    ctx.model("CliSpace", "SPECIFICATION Spec\nINVARIANT Total\nCHECK_DEADLOCK FALSE\n", dump=dump)
    ops, _, _ = cover.load(dump); os.unlink(dump)
    space = sorted(tuple(o.split()) for o in ops.values())
    ctx.cov["command_lines"] = len(space)
    good = [o for o in space if o[1] != "bad" and o[2] == "ok" and o[5] == "-"]
    lines = [line(R, o) for o in space for _ in range(ctx.pick(1, 5))]
    for o in good:                                       # answered with an error
        if R.random() < ctx.pick(0.15, 1):
            w = line(R, o); w.update(status=R.choice(FAIL)); lines.append(w)
    R.shuffle(lines)
    for w in R.sample(lines, ctx.pick(48, 400)): w["real"] = 1
    groups = [lines[i::8] for i in range(8)]
    res = ctx.drivers("cli_driver.py", [dict(lines=g) for g in groups], timeout=ctx.pick(400, 3000))
    traces, reps = [], []
    for g, r in zip(groups, res):
        if "crash" in r: ctx.violation(clause="driver.crash", got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g[:3]); continue
        traces += r["traces"]; reps += g
    if traces: ctx.validate("CliTrace", traces, what="command lines", replays=reps, chunks=8)
    # ------------------------------------------------ the queues of a running application, managed by command line
    keep = cb.sel("resp.", "obs.", "start", "driver", "app.")
    W = dict(accept=6, release=6, auto=1, ppause=2, punpause=2, rpause=2, runpause=2, apause=1, aunpause=1, repall=2, repone=4, pop=4, clear=0.5, inspect=4, first10=4, data=2)
    hs = []
    for k in range(ctx.pick(24, 300)):
        h = cb.random_history(R, [cb.ep(R, mix=[1, 1, 6]), cb.ep(R, "b", mix=[1, 1, 6], dto=R.choice(["msg", "empty"])), cb.snd(R, mix=[1, 1, 6])], 40, W, nk=5)
        h["cli"] = 1; h["real"] = int(k % 8 == 0)
        hs.append(h)
    cb.run(ctx, hs, "queues managed by command line", keep)
    ctx.assume += ["the text around the answers (rulers, headings) is not judged, only that the answer is in the output"]
