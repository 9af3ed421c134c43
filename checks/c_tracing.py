"""C24: trace spans against Tracing."""
import os
from lib.common import REPO, HERE

def history(R, n, nk):
    conf = [dict(r="p", kind="req"), dict(r="w", kind="req"), dict(r="a", kind="ep", ps=R.choice([1, 3, 100]), maxr=R.choice([1, 2, 3])),
            dict(r="b", kind="ep", ps=R.choice([1, 3, 100]), maxr=R.choice([1, 2, 3]))]
    ops, via = [], ("uds", "tcp", "udp")
    for _ in range(n):
        x = R.random()
        if x < 0.40:
            k = R.randint(1, nk)                                   # often the same key, at once, on several routes
            ops.append(["send", [[R.choice("pwab"), k if R.random() < 0.7 else R.randint(1, nk), R.choice(via)] for _ in range(R.choice([1, 1, 2, 3]))]])
        elif x < 0.75: r = R.choice("pwab"); ops.append(["pick", r, R.randint(0, 3), R.choice(["ok", "ok", "ok", "exc"] if r in "pw" else ["ok", "fail", "fail", "exc"])])
        elif x < 0.83: ops.append(["hold", R.choice("ab"), R.randint(1, nk)])
        elif x < 0.92: ops.append(["let", R.choice("ab")])
        elif x < 0.97: ops.append(["repall", R.choice("ab")])
        else: ops.append(["term", R.choice(["TERM", "INT", "HUP"])])
    return dict(conf=conf, ops=ops, seed=R.randrange(10 ** 6), nk=nk, cli=1)

def check_C24(ctx):
    R = ctx.rng
    ctx.model("Tracing", "SPECIFICATION Spec\nCONSTANTS Keys = {1} Routes = {\"p\", \"a\"} Buffered = {\"a\"} MaxReq = %d MaxTry = 2 MaxTerm = 1\nINVARIANT OneSpanEach Below\nCHECK_DEADLOCK FALSE\n" % ctx.pick(3, 4), timeout=ctx.pick(300, 3000))
    env = dict(PYTHONPATH=f"{REPO}/ekosis_otlp_traces:{REPO}:{HERE}")
    groups = []
    for g in range(16):
        groups.append(dict(first=R.randint(0, 1), quiet=R.randint(0, 2), walks=[history(R, ctx.pick(40, 60), R.choice([2, 4, 12])) for _ in range(ctx.pick(4, 40))]))
    res = ctx.drivers("tracing_driver.py", groups, timeout=ctx.pick(300, 3000), env=env)
    traces, reps = [], []
    for g, r in zip(groups, res):
        if "crash" in r: ctx.violation(clause="driver.crash", got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g["walks"][:2]); continue
        traces += r["traces"]; reps += g["walks"]
    if traces: ctx.validate("TracingTrace", traces, what="spans received by a collector", replays=reps, chunks=8)
    ctx.cov["spans"] = sum(len(t[-1].get("spans", [])) for t in traces)
    ctx.assume += ["spans of requests that a termination interrupted are not judged", "a collector that can be reached; what a killed process had not exported is not judged"]
