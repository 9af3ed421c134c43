"""C12 / C13 / C14: servers, request context and middleware against Server / ServerOps."""
import os, random
from lib import cover
from lib.common import MachineryError
from checks import c_buffered

MC = """SPECIFICATION {spec}
CONSTANTS Conns = {conns} Max = {mx} MW = {mw} Isolated = {iso} Clean = {cl} Order = {od}
{props}
CHECK_DEADLOCK FALSE
"""
SAFE = "INVARIANT InOrder LogOwn HooksInOrder OnceEach"
def models(ctx, sanity):
    ok = dict(iso="TRUE", cl="TRUE", od="TRUE")
    ctx.model("Server", MC.format(spec="Spec", conns="{1,2}", mx=ctx.pick(3, 4), mw=1, props=SAFE, **ok), name=f"Server(2 connections,{ctx.pick(3, 4)} requests,1 middleware)", timeout=2000, heap="8g")
    ctx.model("Server", MC.format(spec="Spec", conns="{1,2}", mx=2, mw=2, props=SAFE, **ok), name="Server(2 connections,2 requests,2 middlewares)")
    ctx.model("Server", MC.format(spec="Fair", conns="{1,2}", mx=2, mw=1, props="PROPERTY Answered", **ok), name="Server liveness")
    for sw, inv in sanity:
        r = ctx.model("Server", MC.format(spec="Spec", conns="{1,2}", mx=3, mw=1, props=f"INVARIANT {inv}", **dict(ok, **{sw: "FALSE"})), name=f"Server sanity({sw}=FALSE)", expect=False)
        if r["ok"]: raise MachineryError("Server no longer depends on its design decisions")

PLAIN = ["ok", "ok", "ok", "big", "empty", "none", "enq", "enq", "badjson", "badjson", "badutf8", "deep", "nonobj", "missing", "badspan", "badroute", "baddto", "strict", "nondict", "unknown",
         "surr", "surrd", "proc", "exc", "exc", "exc", "excval", "unser", "bufp", "buf", "send"]
GATES = ["gate", "gate", "gate", "gexc", "gproc", "gproc", "gval"]
WAITS = ("gate", "gexc", "gproc", "gval")

class Gen:
    """Turns plan steps into driver operations with concrete requests."""
    def __init__(self, rng, plain=PLAIN, gates=GATES, udp=0.2, mw=0, kinds=None):
        self.rng, self.nid, self.nc, self.conn, self.tr, self.q = rng, 0, 0, {}, {}, {}
        self.plain, self.gates, self.udp, self.mw = plain, gates, udp, mw
    def kind(self, k, tr):
        x = self.rng.choice(self.gates if k == "g" else self.plain)
        while tr == "udp" and x == "enq": x = self.rng.choice(self.plain)
        return self.plan(x) if x == "mw" else x
    def plan(self, x):
        R = self.rng
        acts = []
        for w in range(1, self.mw + 1):
            b = R.choices(["same", "mut", "rep", "raise", "proc", "route", "bad", "nowhere"], [4, 4, 5, 0.6, 0.6, 0.8, 0.5, 0.4])[0]
            a = R.choices(["same", "mut", "rep", "raise", "proc", "nil"], [4, 4, 5, 0.6, 0.6, 1.2 if w == self.mw else 0])[0]
            acts += [f"b{w}={b}", f"a{w}={a}"]
        return f"mw:{R.choices(['ok', 'ok2', 'proc', 'exc'], [8, 1, 1, 1])[0]}:{','.join(acts)}"
    def new(self, k, c):
        self.nid += 1
        return [self.kind(k, self.tr[c]), self.nid]
    def steps(self, labels, trs=None):
        ops = []
        for lab in labels:
            f = lab.split(); n = f[0]
            if n == "init": continue
            c = f[1]
            if n == "open":
                self.nc += 1; self.conn[c] = self.nc; self.q[c] = []
                self.tr[c] = trs[c] if trs else self.rng.choice(["tcp", "uds"])
                ops.append(["open", self.nc, self.tr[c]])
            elif n in ("snd", "two"):
                rq = ([self.new("p", c)] if n == "two" else []) + [self.new(f[2], c)]
                if self.rng.random() < 0.1 and f[2] == "p": rq += [self.new("p", c) for _ in range(self.rng.randint(1, 5))]
                self.q[c] += rq; ops.append(["snd", self.conn[c], rq])
            elif n == "part":
                r = self.new(f[2], c); self.p = getattr(self, "p", {}); self.p[c] = r
                ops.append(["part", self.conn[c], r])
            elif n == "fin": self.q[c].append(self.p[c]); ops.append(["fin", self.conn[c]])
            elif n == "rel":
                g = next((r for r in self.q[c] if r[0] in WAITS), None)
                if g: self.q[c] = self.q[c][self.q[c].index(g) + 1:]; ops.append(["rel", g[1]])
            elif n == "close":
                ops.append(["close", self.conn[c], f[2] if f[2] == "half" or self.rng.random() < 0.6 else "rst"])
            if self.rng.random() < 0.03: ops.append(["bg"])
        return ops

def plan(ctx, conns, maxq, budget, maxlen, name):
    dump = os.path.join(ctx.scratch, "sw.dot")
    ctx.model("ServerWalk", f"SPECIFICATION Spec\nCONSTANTS Conns = {{{','.join(map(str, range(1, conns + 1)))}}} MaxQ = {maxq}\nCHECK_DEADLOCK FALSE\n", name=f"ServerWalk({conns} connections,queue {maxq})", dump=dump)
    nodes, succ, init = cover.load(dump); os.unlink(dump)
    ws, seen, total = cover.walks(nodes, succ, init, maxlen=maxlen, budget=budget, rng=random.Random(ctx.seed))
    ctx.cov.setdefault("transition_cover", []).append(dict(plan=name, covered=seen, of=total))
    ctx.log(f"cover {name}: {seen}/{total} (state,op) pairs, {len(ws)} walks, {sum(map(len, ws))} ops")
    return ws

def walk_scenarios(ctx, ws, **kw):
    out = []
    for n, w in enumerate(ws):
        rng = random.Random(f"{ctx.seed}-{n}-{kw.get('mws', 0)}")
        g = Gen(rng, mw=kw.get("mws", 0), **{k: v for k, v in kw.items() if k in ("plain", "gates")})
        ops = g.steps(w)
        out.append(dict(ops=ops, seed=rng.randrange(10 ** 6), **{k: v for k, v in kw.items() if k in ("mws", "logs", "stats")},
                        logbuf=rng.choice([0, 3, 7, 1000])))
    return out

def mixed(rng, n, plain=PLAIN, gates=GATES, mws=0, **kw):
    """Many connections on all transports at once, requests in flight on several of them."""
    g = Gen(rng, plain, gates, mw=mws)
    ops, live, gated = [], [], []
    def op():
        c = rng.choice(live)
        rq = [g.new("g" if rng.random() < 0.25 and not (g.tr[c] == "udp" and rng.random() < 0.8) else "p", c) for _ in range(rng.choice([1, 1, 2, 4]))]
        gated.extend(r[1] for r in rq if r[0] in WAITS)
        return ["snd", g.conn[c], rq]
    while len(ops) < n:
        x = rng.random()
        if not live or x < 0.1 and len(live) < 7:
            g.nc += 1; c = str(g.nc); g.conn[c] = g.nc; g.tr[c] = rng.choice(["tcp", "uds", "udp"]); live.append(c)
            ops.append(["open", g.nc, g.tr[c]])
        elif x < 0.45: ops.append(op())
        elif x < 0.65: ops.append(["par", [op() for _ in range(rng.randint(2, 5))]])
        elif x < 0.85 and gated: ops.append(["rel", gated.pop(rng.randrange(len(gated)))])
        elif x < 0.92 and len(live) > 1:
            c = live.pop(rng.randrange(len(live))); ops.append(["close", g.conn[c], "close" if g.tr[c] == "udp" else rng.choice(["close", "rst", "half"])])
        elif x < 0.96: ops.append(["bg"])
    return dict(ops=ops, seed=rng.randrange(10 ** 6), mws=mws, logbuf=rng.choice([0, 3, 7, 50, 1000]), **kw)

def flood(rng):
    n = rng.randint(60, 160)
    tr = rng.choice(["tcp", "uds"])
    ops = [["open", 1, tr], ["open", 2, rng.choice(["tcp", "uds", "udp"])], ["flood", 1, list(range(10, 10 + n)), 2, 5], ["snd", 1, [["ok", 6]]], ["snd", 2, [["ok", 7]]]]
    if rng.random() < 0.5: ops[3:3] = [["close", 1, rng.choice(["rst", "close"])]]
    return dict(ops=ops, seed=rng.randrange(10 ** 6))

def run(ctx, scs, what, keep, par=8):
    groups = [g for g in (scs[i::par * 2] for i in range(par * 2)) if g]
    res = ctx.drivers("server_driver.py", [dict(scenarios=g) for g in groups], timeout=ctx.pick(300, 3000), par=par)
    traces, reps = [], []
    for g, r in zip(groups, res):
        if "crash" in r:
            ctx.violation(clause="driver.crash", what=what, got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g); continue
        traces += r["traces"]; reps += g
    if traces: ctx.validate("ServerTrace", traces, clauses=keep, what=what, replays=reps, chunks=8)

def check_C12(ctx):
    models(ctx, [("od", "InOrder")])
    keep = lambda c: c.startswith(("rcv", "qui", "conn", "exe", "server", "driver"))
    ws = plan(ctx, 2, 2, ctx.pick(7000, None), 60, "two connections")
    run(ctx, walk_scenarios(ctx, ws), "plan: two connections", keep)
    if ctx.thorough:
        run(ctx, walk_scenarios(ctx, plan(ctx, 2, 3, 120000, 80, "two connections, deep")), "plan: two connections, deep", keep)
    R = ctx.rng
    run(ctx, [mixed(R, R.randint(20, 60)) for _ in range(ctx.pick(120, 2500))], "mixed transports", keep)
    run(ctx, [flood(R) for _ in range(ctx.pick(8, 60))], "clients that do not read", keep)
    ctx.assume += ["request lines within the 64 KiB stream limit", "endpoints do not raise asyncio.CancelledError"]

def check_C13(ctx):
    models(ctx, [("iso", "LogOwn"), ("cl", "LogOwn")])
    keep = lambda c: c.startswith(("span", "log", "driver", "server"))
    lp = ["ok"] * 6 + ["buf"] * 5 + ["send"] * 4 + ["proc", "exc", "strict", "enq", "badjson", "unknown", "none"]
    ws = plan(ctx, 2, 2, ctx.pick(4000, None), 60, "two connections")
    run(ctx, walk_scenarios(ctx, ws, plain=lp, logs=1, mws=1), "plan: two connections", keep)
    R = ctx.rng
    run(ctx, [mixed(R, R.randint(20, 60), lp, GATES, mws=R.choice([0, 0, 1, 2]), logs=1) for _ in range(ctx.pick(160, 3000))], "mixed transports", keep)

def check_C14(ctx):
    models(ctx, [("od", "InOrder")])
    keep = lambda c: c.startswith(("mw", "driver", "server", "rcv.data", "rcv.status"))
    mp = ["mw"] * 12 + ["ok", "enq", "unknown", "badjson", "baddto", "buf"]
    for n in (1, 2, 3):
        ws = plan(ctx, 2, 2, ctx.pick(1500, 15000), 60, "two connections")
        run(ctx, walk_scenarios(ctx, ws, plain=mp, mws=n), f"plan: {n} middlewares", keep)
    R = ctx.rng
    run(ctx, [mixed(R, R.randint(20, 60), mp, GATES, mws=R.choice([1, 2, 3, 5])) for _ in range(ctx.pick(100, 2000))], "mixed transports", keep)
    c_buffered.middleware(ctx)
