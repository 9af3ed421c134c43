"""C26: from a buffered sender to a buffered endpoint of another application, against Chain."""
from lib.common import MachineryError

MC = """SPECIFICATION {spec}
CONSTANTS Keys = {keys} MaxSend = 2 Tries = 2 MaxRun = 2 Faults = {f} Terms = {t} Reps = 1 QueueFirst = {qf} KeepCur = {kc} Stored = {st}
{props}
CHECK_DEADLOCK FALSE
"""
KINDS = ["dropreq", "droprsp", "delay", "slowreq", "cutbefore", "cutafter", "partial"]

def scenario(R, client, n):
    ops = []
    for _ in range(n):
        x = R.random()
        if x < 0.45: ops.append(["enq", R.choice([1, 1, 2, 3, 6])])
        elif x < 0.58: ops.append(["sleep", R.choice([0.02, 0.1, 0.3])])
        elif x < 0.70: ops.append(["term", R.choice("ab"), R.choice(["TERM", "INT", "HUP"]), R.choice([0, 0, 0.3])])
        elif x < 0.73: ops.append(["both", R.choice(["TERM", "INT", "HUP"])])
        elif x < 0.78: ops.append(["refuse"])
        elif x < 0.83: ops.append(["listen"])
        elif x < 0.88: ops.append(["busy", R.choice(["pause", "unpause"])])
        elif x < 0.92: ops.append(["hold", R.choice(["pause", "unpause"])])
        elif x < 0.96: ops.append(["pause", R.choice(["pause", "unpause"])])
        else: ops.append(["rep"])
    side = lambda: dict(ps=R.choice([1, 2, 5, 100]), maxr=R.choice([1, 2, 3, 5]), fail=R.choice([0, 0, 0.1, 0.3]), exc=R.choice([0, 0.3]))
    kinds = R.sample(KINDS, R.choice([1, 2, 7]))
    return dict(client=client, seed=R.randrange(10 ** 6), ops=[["enq", 3]] + ops, faults=R.choice([0, 0.1, 0.25]), kinds=kinds, timeout=0.6, tries=R.choice([1, 2, 3]),
                wait=R.choice([0, 0, 0, 0.05]), aroute=R.choice(["a.in", "b.in"]), a=side(), b=side())

def check_C26(ctx):
    ok = dict(qf="TRUE", kc="TRUE", st="TRUE")
    big = ctx.pick(dict(keys="{1,2}", f=2, t=1), dict(keys="{1,2}", f=3, t=2))
    ctx.model("Chain", MC.format(spec="Spec", props="INVARIANT NoLoss NotInvented NotTooOften Known", **big, **ok), name=f"Chain({big})", timeout=ctx.pick(300, 3000), heap="8g")
    ctx.model("Chain", MC.format(spec="Fair", props="PROPERTY Arrives", keys="{1}", f=2, t=1, **ok), name="Chain liveness")
    for sw in ("qf", "kc", "st"):
        r = ctx.model("Chain", MC.format(spec="Spec", props="INVARIANT NoLoss", keys="{1}", f=1, t=1, **dict(ok, **{sw: "FALSE"})), name=f"Chain sanity({sw}=FALSE)", expect=False)
        if r["ok"]: raise MachineryError("Chain no longer depends on its design decisions")
    R = ctx.rng
    scs = [scenario(R, c, R.choice([4, 8, 12])) for _ in range(ctx.pick(8, 60)) for c in ("tcp", "ttcp", "udp", "uds", "tuds")]
    R.shuffle(scs)
    groups = [g for g in (scs[i::10] for i in range(10)) if g]
    res = ctx.drivers("chain_driver.py", [dict(scenarios=g) for g in groups], timeout=ctx.pick(500, 3000), par=10)
    traces, reps = [], []
    for g, r in zip(groups, res):
        if "crash" in r: ctx.violation(clause="driver.crash", got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g[:2]); continue
        traces += r["traces"]; reps += g
    if traces: ctx.validate("ChainTrace", traces, what="two applications and a bad connection", replays=reps, chunks=8)
    ctx.cov["messages"] = sum(e["ev"] == "enq" for t in traces for e in t)
    ctx.assume += ["answers within 40% of the client's time-out count as in time, later ones as possibly too late", "an exchange within 0.3 s of a termination may count or not"]
