"""C10 / C11: clients against ClientExchange / ClientOps."""
import os, random
from lib import cover
from lib.common import MachineryError

CFG = """SPECIFICATION {spec}
CONSTANTS Calls = {calls} MaxR = {maxr} Kind = "{kind}" Atomic = {atomic} Drop = {drop} Heartbeat = {hb} MaxConn = {mc} Bounded = {bd}
{props}
CHECK_DEADLOCK FALSE
"""
def cfg(bd="TRUE", **k): return CFG.format(bd=bd, **k)
SAFE = "INVARIANT Own Budget Outcomes OneAtATime\nPROPERTY NoneAfter"

def models(ctx):
    for k in ("tt", "pp", "ud"):
        ctx.model("ClientExchange", cfg(spec="Spec", calls="{1,2}", maxr=2, kind=k, atomic="TRUE", drop="TRUE", hb="FALSE", mc=5, props=SAFE), name=f"ClientExchange({k})")
        ctx.model("ClientExchange", cfg(spec="Fair", calls="{1,2}", maxr=2, kind=k, atomic="TRUE", drop="TRUE", hb="FALSE", mc=5, props="PROPERTY Ends"), name=f"ClientExchange liveness({k})")
    ctx.model("ClientExchange", cfg(spec="Spec", calls="{1,2}", maxr=2, kind="pp", atomic="TRUE", drop="TRUE", hb="TRUE", mc=ctx.pick(3, 4), props=SAFE), name="ClientExchange(pp,heartbeat)", timeout=1500)
    if ctx.thorough:
        for k in ("tt", "pp", "ud"):
            ctx.model("ClientExchange", cfg(spec="Spec", calls="{1,2,3}", maxr=2, kind=k, atomic="TRUE", drop="TRUE", hb="FALSE", mc=4, props=SAFE), name=f"ClientExchange({k},3 calls)", timeout=2500)
    # the model must notice when either design decision is taken back
    for a, d in (("FALSE", "TRUE"), ("TRUE", "FALSE")):
        r = ctx.model("ClientExchange", cfg(spec="Spec", calls="{1,2}", maxr=2, kind="pp", atomic=a, drop=d, hb="FALSE", mc=5, props="INVARIANT Own"), name=f"ClientExchange sanity(atomic={a},drop={d})", expect=False)
        if r["ok"]: raise MachineryError("ClientExchange no longer depends on its design decisions")
    for k in ("tt", "pp"):
        r = ctx.model("ClientExchange", cfg(spec="Fair", bd="FALSE", calls="{1,2}", maxr=2, kind=k, atomic="TRUE", drop="TRUE", hb="FALSE", mc=5, props="PROPERTY Ends"), name=f"ClientExchange sanity({k}, unbounded connecting)", expect=False)
        if r["ok"]: raise MachineryError("ClientExchange: an attempt to connect need not be bounded?")

T, DELAY = 100, 30
REACTS = ["ok", "slow", "st", "late", "late2", "later", "never", "close", "partial", "rst"]
def react(rng, r):
    return {"ok": lambda: ["ok", rng.choice([0, 0, 10, 40])], "slow": lambda: ["ok", 90], "st": lambda: ["st", rng.choice([0, 15, 80]), rng.choice([100, 200, 300, 400, 500, 600, 999, 777, 1])],
            "late": lambda: ["ok", T + rng.choice([5, 15, 25])], "late2": lambda: ["ok", T + rng.choice([40, 60, 100])], "later": lambda: ["ok", T + rng.choice([150, 250, 400])],
            "never": lambda: ["never"], "close": lambda: ["close", rng.choice([0, 20])], "partial": lambda: ["partial", rng.choice([0, 20]), rng.randrange(1000)],
            "dup": lambda: ["dup", rng.choice([0, 10, 40]), rng.choice([0, 5, 20, 60, 130])],
            "rst": lambda: ["rst", rng.choice([0, 20])], "down": lambda: ["down", rng.choice([0, 50])]}[r]()

MK = dict(tcp="tt", uds="tt", ptcp="pp", puds="pp", udp="ud")
def scripts(ctx, kind, maxr, nc, budget):
    mk = MK[kind]
    rs = [r for r in REACTS if not (kind == "udp" and r in ("close", "partial", "rst", "later") or r == "rst" and "uds" in kind)]
    dump = os.path.join(ctx.scratch, "cs.dot")
    ctx.model("ClientScripts", f'SPECIFICATION Spec\nCONSTANTS Kind = "{mk}" MaxR = {maxr} NC = {nc} Reacts = {{{",".join(chr(34)+r+chr(34) for r in rs)}}}\nCHECK_DEADLOCK FALSE\n',
              name=f"ClientScripts({kind},max_retries={maxr},{nc} calls)", dump=dump)
    ops, succ, _ = cover.load(dump, var="h"); os.unlink(dump)
    leaves = sorted(ops[n] for n in ops if not succ.get(n))
    total = len(leaves)
    if budget and total > budget: leaves = ctx.rng.sample(leaves, budget)
    ctx.cov.setdefault("scripts", []).append(dict(kind=kind, max_retries=maxr, calls=nc, run=len(leaves), of=total))
    out = []
    for lf in leaves:
        rng = random.Random(f"{ctx.seed}-{lf}-{len(out)}")
        calls, cur = [], []
        for x in lf.split():
            cur.append(react(rng, x.replace("-end", "")))
            if x.endswith("-end"):
                calls.append(dict(id=len(calls) + 1, gap=rng.choice([0, 0, 10, 45, 80]), reacts=cur)); cur = []
        calls.append(dict(id=len(calls) + 1, gap=rng.choice([0, 10, 60]), reacts=[["ok", rng.choice([0, 10, 95])]]))
        out.append(dict(kind=kind, maxr=maxr, T=T, delay=DELAY, solo=True, calls=calls))
    return out

def keys(rng, kind, calls):
    """Calls made for one request share its span key; datagrams may be duplicated, or reach the next owner of a port."""
    x = rng.random()
    if x < 0.3: return dict(sharekey=1)
    if kind != "udp" or x < 0.5: return {}
    if x < 0.75:
        for c in calls:
            c["reacts"] = [react(rng, "dup") if r[0] == "ok" and r[1] < T and rng.random() < 0.6 else r for r in c["reacts"]]
        return {}
    return dict(sameport=1)

def faulty(rng, kind, n):
    """Sequential calls with the server going away and coming back, dropped idle connections, cancelled callers."""
    maxr, calls, up = rng.choice([1, 2, 3, 4]), [], True
    for i in range(1, n + 1):
        c = dict(id=i, gap=rng.choice([0, 10, 60, 300]), reacts=[])
        x = rng.random()
        if not up: c["pre"] = "up" if x < 0.7 else ""; up = x < 0.7
        elif x < 0.12: c["pre"] = "down"; up = False
        elif x < 0.2 and "tcp" in kind: c["pre"] = "jam"; up = False
        elif x < 0.3 and kind != "udp": c["pre"] = "drop"
        for _ in range(maxr):
            r = rng.choice(["ok", "ok", "slow", "st", "late", "late2", "later", "never", "close", "partial", "rst", "down"])
            if r == "down" and (not up or rng.random() < 0.5): r = "never"
            if r == "later" and kind == "udp": r = "late2"
            if r == "rst" and "tcp" not in kind: r = "close"
            if r in ("close", "partial", "rst") and kind == "udp": r = "never"
            c["reacts"].append(react(rng, r))
            if r == "down": up = False; break
            if r in ("ok", "slow", "st"): break
            if r in ("close", "partial") and MK[kind] == "tt": break
        if rng.random() < 0.15: c["cancel"] = rng.choice([5, 30, 60, 110, 150])
        calls.append(c)
    if any("down" in str(c["reacts"]) for c in calls):      # the state of the server is only certain without cancels
        for c in calls: c.pop("cancel", None)
    sc = dict(kind=kind, maxr=maxr, T=T, delay=DELAY, solo=True, calls=calls, **keys(rng, kind, calls))
    if MK[kind] == "pp" and rng.random() < 0.5:
        sc["hb"] = rng.choice([45, 170, 333]); sc["solo"] = True
        sc["solo"] = False if True else True
        t = 0
        for c in calls: t += c.pop("gap") + rng.choice([0, 20, 130, 400]); c["at"] = t; c.pop("pre", None); c["reacts"] = [r if r[0] != "down" else ["never"] for r in c["reacts"]]
        sc["hb_reacts"] = [react(rng, rng.choice(["ok", "ok", "slow", "late", "late2", "never", "close"])) for _ in range(30)]
    return sc

def concurrent(rng, kind, n):
    maxr = rng.choice([1, 2, 2, 3, 4])
    calls = []
    for i in range(1, n + 1):
        rs = []
        for _ in range(maxr):
            r = rng.choice(["ok", "ok", "ok", "slow", "slow", "st", "late", "late2", "later", "never", "close", "partial", "rst"])
            if r == "rst" and "tcp" not in kind: r = "close"
            if r in ("close", "partial", "rst", "later") and kind == "udp": r = "late2"
            rs.append(react(rng, r))
        calls.append(dict(id=i, at=rng.choice([0, 0, 0, 5, 50, 100, 130, 200, 350]), reacts=rs, **(dict(cancel=rng.choice([5, 60, 110, 150, 260])) if rng.random() < 0.12 else {})))
    sc = dict(kind=kind, maxr=maxr, T=T, delay=rng.choice([0, 10, DELAY, 120]), solo=False, calls=calls, **keys(rng, kind, calls))
    if MK[kind] == "pp":
        if rng.random() < 0.6:
            sc["hb"] = rng.choice([20, 45, 170])
            sc["hb_reacts"] = [react(rng, rng.choice(["ok", "ok", "ok", "slow", "late", "late2", "never", "close"])) for _ in range(40)]
        if rng.random() < 0.3: sc["srv"] = [dict(at=rng.randrange(0, 500), do="drop") for _ in range(2)]
    return sc

def run(ctx, scs, what, keep):
    par = 16
    groups = [g for g in (scs[i::par] for i in range(par)) if g]
    res = ctx.drivers("client_driver.py", [dict(scenarios=g) for g in groups], timeout=ctx.pick(300, 3000), par=8)
    traces, reps = [], []
    for g, r in zip(groups, res):
        if "crash" in r:
            ctx.violation(clause="driver.crash", what=what, got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g); continue
        traces += r["traces"]; reps += g
    if traces:
        ctx.validate("ClientTrace", traces, clauses=keep, what=what, replays=reps, chunks=8)

KINDS = ["tcp", "uds", "ptcp", "puds", "udp"]
def check(ctx, keep):
    models(ctx)
    ws = []
    for k in KINDS:
        ws += scripts(ctx, k, 2, 2, ctx.pick(450, 6000))
        ws += scripts(ctx, k, 3, 1, ctx.pick(150, 6000))
        ws += scripts(ctx, k, 1, 3, ctx.pick(100, 1000))
    run(ctx, ws, "scripted sequences", keep)
    R = ctx.rng
    ws = [faulty(R, R.choice(KINDS), R.randint(3, 7)) for _ in range(ctx.pick(500, 8000))]
    run(ctx, ws, "outages, drops, cancels", keep)
    ws = [concurrent(R, R.choice(["ptcp", "puds", "udp", "ptcp", "udp", "tcp", "uds"]), R.randint(2, 7)) for _ in range(ctx.pick(800, 12000))]
    run(ctx, ws, "concurrent calls", keep)
    ctx.assume += ["the server answers the requests of one connection in order, each at most once (as the ekosis servers do); datagrams may be duplicated", "max_retries >= 1"]

def check_C10(ctx):
    check(ctx, lambda c: c.startswith(("ret.own", "ret.outcome", "driver", "ret.message")))
def check_C11(ctx):
    check(ctx, lambda c: True)
