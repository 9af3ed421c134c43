"""C15 / C16: statistics and error states against Stats / ErrorStates."""
import os, random
from lib import cover
from checks import c_server
from lib.common import MachineryError

def run(ctx, module, payloads, what):
    res = ctx.drivers("state_driver.py", payloads, timeout=ctx.pick(300, 3000))
    traces, reps = [], []
    for g, r in zip(payloads, res):
        if "crash" in r: ctx.violation(clause="driver.crash", what=what, got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g["scenarios"][:2]); continue
        traces += r["traces"]; reps += [dict(g, scenarios=[s]) for s in g["scenarios"]]
    if traces: ctx.validate(module, traces, what=what, replays=reps, chunks=8)

# ------------------------------------------------------------------------------------------------ C15
MS = """SPECIFICATION Spec
CONSTANTS Eps = {eps} Durs = {durs} HL = {hl} Max = {mx} Users = {us} LateCount = {late}
INVARIANT Conserved Bounded Sane
PROPERTY Newest Restarts
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
"""
EPN = ["s.a", "s.b", "s", "deep.er.route.key", "flat"]
USR = ["u", "grp.x", "grp.y", "a.b.c.d"]

def quiet(t):
    """No event falls on a moment at which statistics may be gathered (whole seconds)."""
    return t if t % 8 else t + 1

def from_walk(labels, gp, rng):
    """Times for the steps of a walk: durations follow from them."""
    ops, t, open_ = [], 1, {}
    names = rng.sample(EPN, 2)
    per = gp * 8
    for lab in labels:
        n, x, d = lab.split()
        t = quiet(t + rng.randint(1, 3))
        if n == "begin": open_.setdefault(x, []).append(t); continue
        if n in ("end", "fail"):
            if not open_.get(x): continue
            s = open_[x].pop(rng.randrange(len(open_[x])))
            ops.append([s, ["call", names[int(x) - 1], t - s, "ok" if n == "end" else rng.choice(["proc", "exc"])]])
        elif n == "set": ops.append([t, [rng.choice(["set", "inc", "dec"]), rng.choice(USR), rng.randint(-40, 400), rng.randint(0, 1)]])
        elif n == "gather": t = quiet((t // per + 1) * per + rng.randint(1, 7))
        if rng.random() < 0.6: t += 1; t = quiet(t); ops.append([t, [rng.choice(["cur", "cur", "gat", "ful"])]])
    t = quiet(t + 1); ops += [[t, ["cur"]], [t, ["ful"]], [quiet((t // per + 1) * per + 1), ["ful"]]]
    return dict(stats=1, ops=sorted(ops, key=lambda o: o[0]))

def rand(gp, rng):
    ops, t, per = [], 1, gp * 8
    W = dict(call=10, set=1, inc=3, dec=2, push=1.5, out=1.5, drain=0.8, clearq=0.3, cur=4, gat=2, ful=2, jump=1.5, mass=0.3)
    for n in rng.choices(list(W), list(W.values()), k=rng.randint(20, 90)):
        t = quiet(t + rng.choice([0, 1, 1, 2, 5]))
        if n == "jump": t = quiet(t + rng.randint(1, 2 * per + 5)); continue
        if n in ("call", "mass"):
            many = rng.choice([EPN, EPN, [rng.choice(EPN)]])
            for c in range(rng.randint(20, 60) * (1 if many is EPN else 4) if n == "mass" else 1):
                if c % 50 == 49: t = quiet(t + 1)           # no more connections at once than a listener queues
                d = rng.choice([0, 0, 1, 2, 3, 9, 20, 100]); o = rng.choices(["ok", "proc", "exc", "unknown", "bad", "paused"], [8, 1, 1, 0.5, 0.5, 0.7])[0]
                if (t + d) % 8 == 0: d += 1
                if len(many) == 1 and rng.random() < .9: d, o = d + rng.choice([0, 1, 2, 5]), "ok"
                if (t + d) % 8 == 0: d += 1
                ops.append([t, ["call", rng.choice(many), d, o]])
            t += 1; continue            # reads stay clear of what ends at the same moment: see order()
        elif n in ("set", "inc", "dec"): ops.append([t, [n, rng.choice(USR), rng.randint(-40, 400), rng.randint(0, 1)]])
        elif n == "drain": ops.append([t, ["drain", rng.choice(["ok", "exc"]), rng.choice("qo")]])
        elif n == "clearq": ops.append([t, ["clearq", rng.choice("qo")]])
        else: ops.append([t, [n]])
    t = quiet(t + 1); ops += [[t, ["cur"]], [t, ["ful"]], [quiet(t + 2 * per), ["ful"]]]
    return dict(stats=1, ops=sorted(ops, key=lambda o: o[0]))

def edge(gp, rng):
    """Calls that end at the very moments at which statistics are gathered: each counts once."""
    ops, per = [], gp * 8
    for _ in range(rng.randint(10, 60)):
        e = per * rng.randint(1, 9); d = rng.choice([1, 2, 4, 8, per])
        if e > d: ops.append([e - d, ["edge", rng.choice(EPN), d, rng.choice(["ok", "inc", "inc", "exc"]), rng.choice([0, 0, 1, 2, 3, 5, 8])]])
    return dict(stats=1, ops=sorted(ops, key=lambda o: o[0]) + [[per * 9 + 3, ["tot"]]])

def order(sc):
    """Reads and queue operations take place at moments at which no call ends."""
    ends = {t + (o[2] if o[3] not in ("unknown", "bad", "paused") else 0) for t, o in sc["ops"] if o[0] == "call"}
    out, shift = [], 0
    for t, o in sc["ops"]:
        if o[0] != "call":
            while t in ends or t % 8 == 0: t += 1
        out.append([t, o])
    sc["ops"] = sorted(out, key=lambda o: o[0]); return sc

def check_C15(ctx):
    for hl in ctx.pick([2], [1, 2, 3]):
        ctx.model("Stats", MS.format(eps="{1,2}", durs="{1,3}", hl=hl, mx=ctx.pick(2, 3), us="{}", late="FALSE"), name=f"Stats(2 endpoints,history {hl})", timeout=2000, heap="8g")
    r = ctx.model("Stats", MS.format(eps="{1}", durs="{1}", hl=1, mx=2, us="{}", late="TRUE"), name="Stats sanity(LateCount)", expect=False)
    if r["ok"]: raise MachineryError("Stats no longer tells lost counts")
    dump = os.path.join(ctx.scratch, "st.dot")
    ctx.model("Stats", MS.format(eps="{1,2}", durs="{1}", hl=2, mx=2, us="{1}", late="FALSE"), name="Stats plan", dump=dump)
    nodes, succ, init = cover.load(dump); os.unlink(dump)
    ws, seen, total = cover.walks(nodes, succ, init, maxlen=60, budget=ctx.pick(6000, 60000), rng=random.Random(ctx.seed))
    ctx.cov["transition_cover"] = [dict(plan="calls, failures, user values, gathering", covered=seen, of=total)]
    ctx.log(f"cover: {seen}/{total} (state,op) pairs, {len(ws)} walks")
    R = ctx.rng
    confs = [(1, 1), (1, 3), (2, 2), (3, 1), (5, 4), (2, 0), (1, 12), (7, 2)]
    groups = [dict(gp=gp, hl=hl, scenarios=[]) for gp, hl in confs * 2]
    for i, w in enumerate(ws):
        g = groups[i % len(groups)]; g["scenarios"].append(order(from_walk(w, g["gp"], random.Random(f"{ctx.seed}-{i}"))))
    run(ctx, "StatsTrace", [g for g in groups if g["scenarios"]], "plan walks")
    groups = [dict(gp=gp, hl=hl, scenarios=[order(rand(gp, R)) for _ in range(ctx.pick(14, 200))]) for gp, hl in confs * 2]
    run(ctx, "StatsTrace", groups, "random histories")
    run(ctx, "StatsTrace", [dict(gp=gp, hl=12, scenarios=[edge(gp, R) for _ in range(ctx.pick(6, 150))]) for gp in (1, 2, 3, 5)], "calls that end while statistics are gathered")
    plain = [k for k in c_server.PLAIN if k not in ("surr", "surrd", "unser")]
    c_server.run(ctx, [c_server.mixed(R, R.randint(20, 60), plain, stats=1) for _ in range(ctx.pick(60, 800))], "all transports", lambda c: c.startswith(("stat", "driver")))
    ctx.assume += ["virtual time: the application's clocks and event loop run on a simulated clock", "a response that can not be serialised is outside the counted calls"]

# ------------------------------------------------------------------------------------------------ C16
ME = """SPECIFICATION Spec
CONSTANTS Ids = {ids} Variants = {var} MaxN = {mx}
INVARIANT NonNeg
PROPERTY OneOnly KeepsText
CHECK_DEADLOCK FALSE
"""
NAMES = {1: ["disk_full", "DISK_FULL", "Disk_Full"], 2: ["disk", "DISK", "dIsK"], 3: ["E 1/\u00e9", "e 1/\u00c9", "e 1/\u00e9"]}
READ = ["eget", "elist", "ejson", "eobj"]
def check_C16(ctx):
    dump = os.path.join(ctx.scratch, "e.dot")
    ctx.model("ErrorStates", ME.format(ids="{1,2}", var="{1,2}", mx=ctx.pick(2, 3)), name="ErrorStates(2 ids)", dump=dump)
    nodes, succ, init = cover.load(dump); os.unlink(dump)
    ws, seen, total = cover.walks(nodes, succ, init, maxlen=60, budget=ctx.pick(4000, 60000), rng=random.Random(ctx.seed))
    ctx.cov["transition_cover"] = [dict(plan="2 ids", covered=seen, of=total)]
    ctx.log(f"cover: {seen}/{total} (state,op) pairs, {len(ws)} walks")
    scs = []
    for i, w in enumerate(ws):
        rng, ops = random.Random(f"{ctx.seed}-{i}"), []
        ids = rng.sample([1, 2, 3], 2)
        for lab in w:
            n, k, v, x = lab.split()
            if n == "init": continue
            nm = NAMES[ids[int(k) - 1]][int(v) - 1]
            ops.append([0, [n, nm, f"text {v} {len(ops)}" if n == "einc" else int(x)]])
            ops.append([0, [rng.choice(READ)]])
        scs.append(dict(ops=ops))
    R = ctx.rng
    for _ in range(ctx.pick(120, 1500)):
        ops = []
        for _ in range(R.randint(10, 80)):
            nm = R.choice(NAMES[R.choice([1, 2, 3])])
            n = R.choices(["einc", "esome", "eall", "eclr", "read"], [10, 2, 0.7, 2, 6])[0]
            if n == "read": ops.append([0, [R.choice(READ)]])
            else: ops.append([0, [n, nm, f"text {len(ops)}" if n == "einc" else R.choice([0, 1, 1, 2, 5, 1000, -1, -3])]])
        scs.append(dict(ops=ops + [[0, [r]] for r in READ]))
    run(ctx, "ErrorTrace", [dict(scenarios=scs[i::8]) for i in range(8)], "error state histories")
