"""C03-C09 (and the buffered half of C14): buffered endpoints and senders against BufferedOps."""
import os, random
from lib import cover

MC = """SPECIFICATION {spec}
CONSTANTS Keys = {keys} MaxR = {maxr} Kind = "{kind}" MaxTerm = {mt} Mis = {mis}
{props}
CHECK_DEADLOCK FALSE
"""
SAFE = "INVARIANT Accounted Serial InBudget UsedIsN MetaKept InOrder\nPROPERTY ErrAfterBudget PauseHolds"

def models(ctx, kind):
    for maxr in ctx.pick([2], [0, 1, 2, 3]):
        ctx.model("Buffered", MC.format(spec="Spec", keys="{1,2,3}", maxr=maxr, kind=kind, mt=ctx.pick(1, 2), mis="{3}", props=SAFE),
                  name=f"Buffered({kind},3 keys,max_retries={maxr})", timeout=ctx.pick(300, 3000))
    ctx.model("Buffered", MC.format(spec="Fair", keys="{1,2}", maxr=2, kind=kind, mt=1, mis="{1}", props="PROPERTY NoStall"),
              name=f"Buffered liveness({kind})")

WALK = """SPECIFICATION Spec
CONSTANTS NK = {nk} MaxR = {maxr} Kind = "{kind}" MaxLen = {ml} Ops = {ops}
INVARIANT Settled
CONSTRAINT Small
CHECK_DEADLOCK FALSE
"""
BASE = ["accept", "release"]
MGMT = ["repall", "clear", "pop", "repone", "inspect", "first10"]
PAUSE = ["rpause", "runpause", "ppause", "punpause", "apause", "aunpause"]

def graph_walks(ctx, kind, ops, nk, ml, maxr, budget, maxlen=60, **conf):
    dump = os.path.join(ctx.scratch, "bw.dot")
    if kind == "snd": ops = [o for o in ops if o not in ("rpause", "runpause", "apause", "aunpause", "arm")]
    ctx.model("BufferedWalk", WALK.format(nk=nk, maxr=maxr, kind=kind, ml=ml, ops="{" + ",".join(f'"{o}"' for o in ops) + "}"),
              name=f"BufferedWalk({kind},{nk} keys,max_retries={maxr})", dump=dump)
    nodes, succ, init = cover.load(dump); os.unlink(dump)
    ws, seen, total = cover.walks(nodes, succ, init, maxlen=maxlen, budget=budget, rng=random.Random(ctx.seed))
    ctx.cov.setdefault("transition_cover", []).append(dict(kind=kind, keys=nk, max_retries=maxr, ops=len(ops), covered=seen, of=total))
    ctx.log(f"cover {kind} nk={nk} maxr={maxr}: {seen}/{total} (state,op) pairs, {len(ws)} walks, {sum(map(len, ws))} ops")
    out = []
    for w in ws:
        rng = random.Random(f"{ctx.seed}-{len(out)}")
        o2 = []
        for lab in w:
            f = lab.split() + [""] * 3
            if f[0] == "term": o2.append(["term", "a", 0, rng.choice(["TERM", "INT", "HUP"]), []])
            else: o2.append([f[0], "a", int(f[1]), f[2], []])
        c = dict(r="a", kind=kind, ps=rng.choice([1, 1, 2, 3, 10]), maxr=maxr); c.update(conf)
        out.append(dict(conf=[c], ops=o2 + drain({"a": c}), seed=rng.randrange(10 ** 6)))
    return out

def drain(conf):
    """Make everything that is queued visible, in order."""
    o = []
    for r, c in conf.items():
        if c.get("wait"): continue
        o += [["aunpause" if c["kind"] == "ep" else "punpause", r, 0, "", []], ["auto", r, 0, "", ["ok"] * 60],
              ["release", r, 0, "ok", []], ["repall", r, 0, "", []]]
    return o

def random_history(rng, conf, n, weights, terms=0.0, nk=8, mass=False, again=0):
    """weights: {op: weight}; terms: probability of a termination + restart after an op;
    again: the long queues go through up to that many restarts before anything else happens."""
    conf = {c["r"]: c for c in conf}
    ops, autos = [], False
    names, ws = zip(*weights.items())
    if mass:        # enough failures for long error queues and several pages
        for r, c in conf.items():
            if c.get("wait"): continue
            bad = "exc" if c["kind"] == "ep" else "other"
            m = rng.randint(8, 26)
            ops += [["auto", r, 0, "", [rng.choice([bad, bad, bad, "fail" if c["kind"] == "ep" else "busy", "ok"]) for _ in range(m * 2)]]]
            ops += [["accept", r, 100 + i, "", []] for i in range(m)]
            ops += [["ppause", r, 0, "", []]] if rng.random() < 0.5 else []
        autos = True
        for _ in range(rng.randint(0, again)):
            ops.append(["term", rng.choice(list(conf)), 0, rng.choice(["TERM", "INT", "HUP"]), []]); autos = False
        n += len(ops) if again else 0
    while len(ops) < n:
        r = rng.choice(list(conf)); c = conf[r]; ep = c["kind"] == "ep"
        o = rng.choices(names, ws)[0]
        k = rng.randint(1, nk) if not mass or rng.random() < 0.3 else 100 + rng.randint(0, 26)
        if not ep and o in ("hold", "let", "rpause", "runpause", "apause", "aunpause", "arm", "burst"): continue
        if o == "accept": ops.append([o, r, k, "", []])
        elif o == "burst":
            if autos: continue
            one = 1 if any(x.get("nomw") for x in conf.values()) else rng.randint(0, 1)
            ops.append([o, r, one, "", rng.sample(range(1, nk + 1), rng.randint(2, min(nk, 6)))])
        elif o == "release":
            ops.append([o, r, 0, rng.choices(["ok", "fail" if ep else rng.choice(["busy", "comm"]), "exc" if ep else "other"], c.get("mix", [4, 4, 2]))[0], []])
        elif o == "auto":
            if c.get("wait"): continue
            autos = True
            ops.append([o, r, 0, "", rng.choices(["ok", "fail" if ep else rng.choice(["busy", "comm"]), "exc" if ep else "other"], c.get("mix", [4, 4, 2]), k=rng.randint(1, 5))])
        elif o == "arm":
            if not any(x.get("nomw") for x in conf.values()): ops.append([o, r, 0, rng.choice("ab"), []])
        elif o in ("hold", "let"):
            if not any(x.get("nomw") for x in conf.values()): ops.append([o, r, k, "", []])
        elif o == "unknown":
            ops.append([rng.choice(list(MGMTN[c["kind"]])), "nope" if ep else r + "x", k, "", []])
        else: ops.append([o, r, k if o in ("pop", "inspect", "repone") else 0, "", []])
        if terms and rng.random() < terms:
            how = []
            if ep and rng.random() < 0.3 and not any(x.get("nomw") for x in conf.values()): how = rng.choice([["a", "ok"], ["a", "fail"], ["a", "exc"], ["b", "ok"]])
            ops.append(["term", r, rng.choice([0, 0, 0, 1, 3]), rng.choice(["TERM", "INT", "HUP"]), how]); autos = False
    return dict(conf=list(conf.values()), ops=ops + drain(conf), seed=rng.randrange(10 ** 6))
MGMTN = dict(ep=["data"] + MGMT + PAUSE, snd=["data"] + MGMT + ["ppause", "punpause"])

def run(ctx, walks, what, clauses, par=8):
    groups = [g for g in (walks[i::par * 2] for i in range(par * 2)) if g]
    res = ctx.drivers("buffered_driver.py", [dict(walks=g) for g in groups], timeout=ctx.pick(300, 3000), par=par)
    traces, reps = [], []
    for g, r in zip(groups, res):
        if "crash" in r:
            ctx.violation(clause="driver.crash", what=what, got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g); continue
        traces += r["traces"]; reps += g
    if traces:
        ctx.validate("BufferedTrace", traces, clauses=clauses, what=what, replays=reps)

def pages(rng):
    """The page size, or those of one life after the other."""
    return rng.choice([1, 2, 3, 5, 100, [rng.choice([1, 2, 3, 5, 8, 100]) for _ in range(3)]])
def ep(rng, r="a", **kw):
    return dict(dict(r=r, kind="ep", ps=pages(rng), maxr=rng.choice([0, 1, 2, 3, 5])), **kw)
def snd(rng, r="s", **kw):
    return dict(dict(r=r, kind="snd", ps=pages(rng), maxr=rng.choice([0, 1, 2, 3, 5])), **kw)

def lives(rng):
    """Which lives of the application no longer know some of the stored data."""
    return rng.choice([[0], [0], [0, 1], [0, 1, 0], [0, 0, 1], [0, 1, 1]])

def sel(*frags):
    return lambda c: any(f in c for f in frags)

ALLW = dict(accept=10, release=10, burst=2, hold=1, let=1, auto=2, arm=1, repall=1, repone=2, pop=1, clear=0.3, ppause=1, punpause=1.5, rpause=0.7, runpause=1.2)

# ------------------------------------------------------------------------------------------------
def check_C03(ctx):
    models(ctx, "ep")
    keep = sel("start", "payload", "obs.pending", "obs.error", "obs.errkeys", "app.", "resp.accept", "resp.burst", "driver")
    ws  = graph_walks(ctx, "ep", BASE + ["repall", "repone", "pop", "term"], 3, 3, 2, ctx.pick(2500, 30000))
    run(ctx, ws, "graph walks with termination", keep)
    R = ctx.rng
    hs  = [random_history(R, [ep(R, strict=lives(R))], 50, ALLW, terms=0.10) for _ in range(ctx.pick(60, 900))]
    hs += [random_history(R, [ep(R), ep(R, "b", dto="empty")], 50, ALLW, terms=0.10) for _ in range(ctx.pick(30, 500))]
    hs += [random_history(R, [ep(R, nomw=1, strict=lives(R)), snd(R)], 50, ALLW, terms=0.08, mass=True) for _ in range(ctx.pick(20, 300))]
    run(ctx, hs, "random histories with termination", keep)
    ctx.assume += ["a request with a span key that is still queued counts as the same request"]

def check_C04(ctx):
    models(ctx, "ep")
    keep = sel("start", "obs.pending", "obs.error", "obs.errkeys", "ep.mw", "app.", "driver")
    ws = []
    for m in ctx.pick([0, 1, 3], [0, 1, 2, 3, 4]):
        ws += graph_walks(ctx, "ep", BASE + ["repall", "repone", "term"], 2, 2, m, ctx.pick(800, 8000))
    ws += graph_walks(ctx, "ep", BASE + ["repall", "arm"], 2, 2, 2, ctx.pick(800, 8000))
    run(ctx, ws, "graph walks", keep)
    R = ctx.rng
    W = dict(accept=6, release=14, auto=3, arm=1, repall=1, repone=2, ppause=0.5, punpause=1)
    hs = [random_history(R, [ep(R, mix=[2, 7, 2], maxr=R.choice([0, 1, 2, 3, 4, 7]))], 60, W, terms=0.06) for _ in range(ctx.pick(80, 1200))]
    run(ctx, hs, "random histories of failures", keep)

def check_C05(ctx):
    models(ctx, "ep")
    keep = sel("start", "obs.busy", "obs.pending", "app.", "driver")
    ws = graph_walks(ctx, "ep", BASE + ["ppause", "punpause", "rpause", "runpause", "repall", "term"], 3, 3, 2, ctx.pick(2500, 30000))
    run(ctx, ws, "graph walks", keep)
    R = ctx.rng
    W = dict(accept=8, burst=6, release=12, hold=1, let=1, auto=1, ppause=2, punpause=3, rpause=0.5, runpause=1, arm=0.7, repall=0.5)
    hs  = [random_history(R, [ep(R)], 50, W, terms=0.05, nk=12) for _ in range(ctx.pick(40, 600))]
    hs += [random_history(R, [ep(R), ep(R, "b", strict=lives(R)), ep(R, "c")], 70, W, terms=0.04, nk=12) for _ in range(ctx.pick(50, 800))]
    run(ctx, hs, "random concurrent histories", keep)

def check_C06(ctx):
    models(ctx, "ep")
    keep = sel("resp.accept", "resp.burst", "pause", "paused", "start", "obs.", "ep.push", "driver", "app.")
    ws = graph_walks(ctx, "ep", BASE + PAUSE + ["repall", "repone", "first10", "clear"], 2, 2, 2, ctx.pick(4000, 30000))
    run(ctx, ws, "graph walks", keep)
    R = ctx.rng
    W = dict(accept=8, burst=3, release=6, hold=3, let=3, ppause=3, punpause=3, rpause=3, runpause=3, apause=2, aunpause=2, auto=1, repall=1, repone=1, pop=0.5, clear=0.3, inspect=0.5, data=1, unknown=0.5)
    hs  = [random_history(R, [ep(R)], 60, W, terms=0.02) for _ in range(ctx.pick(40, 600))]
    hs += [random_history(R, [ep(R), ep(R, "b")], 70, W, terms=0.02) for _ in range(ctx.pick(40, 600))]
    run(ctx, hs, "random histories", keep)

def check_C07(ctx):
    models(ctx, "ep")
    keep = sel("resp.", "obs.", "start", "driver", "app.")
    ws = graph_walks(ctx, "ep", BASE + ["ppause", "punpause"] + MGMT, 3, 3, 0, ctx.pick(3500, 40000))
    ws += graph_walks(ctx, "ep", BASE + MGMT, 2, 2, 0, ctx.pick(600, 3000), dto="empty")
    run(ctx, ws, "graph walks", keep)
    R = ctx.rng
    W = dict(accept=6, release=6, auto=1, ppause=1, punpause=1, repall=2, repone=4, pop=4, clear=0.5, inspect=4, first10=4, data=2, unknown=1.5)
    hs  = [random_history(R, [ep(R, mix=[1, 1, 6]), ep(R, "b", mix=[1, 1, 6], dto=R.choice(["msg", "empty"])), snd(R)], 100, W, terms=0.01, mass=True) for _ in range(ctx.pick(50, 800))]
    W2 = dict(W, clear=3, repall=3, first10=6)
    hs += [random_history(R, [ep(R, mix=[1, 1, 6], ps=R.choice([1, 2, 3, [5, 1], [3, 1, 2], [7, 2]]), nomw=1, strict=lives(R)), snd(R, ps=R.choice([1, 2, 3, [5, 1], [3, 1, 2], [7, 2]]))], 40, W2, terms=0.05, mass=True, again=2) for _ in range(ctx.pick(40, 500))]
    hs += [random_history(R, [ep(R, mix=[1, 1, 6])], 60, W, nk=5) for _ in range(ctx.pick(30, 400))]
    run(ctx, hs, "random management histories", keep)

def check_C08(ctx):
    models(ctx, "snd")
    keep = sel("snd.start", "snd.payload", "snd.obs", "app.", "resp.accept", "driver", "resp.release")
    ws  = graph_walks(ctx, "snd", BASE + ["repall", "repone", "term"], 3, 3, 2, ctx.pick(2500, 30000))
    for m in ctx.pick([0, 3], [0, 1, 3, 4]):
        ws += graph_walks(ctx, "snd", BASE + ["repall", "term"], 2, 2, m, ctx.pick(600, 6000))
    run(ctx, ws, "graph walks with termination", keep)
    R = ctx.rng
    W = dict(accept=8, release=12, auto=2, repall=1, repone=1, ppause=0.6, punpause=1)
    hs  = [random_history(R, [snd(R, maxr=R.choice([0, 1, 2, 3, 5]), strict=lives(R))], 50, W, terms=0.08) for _ in range(ctx.pick(50, 800))]
    hs += [random_history(R, [snd(R), snd(R, "u", dto="empty"), ep(R, nomw=1)], 60, W, terms=0.06) for _ in range(ctx.pick(30, 500))]
    hs += [random_history(R, [snd(R, wait=3600), snd(R, "u")], 30, W, terms=0.2) for _ in range(ctx.pick(16, 200))]
    run(ctx, hs, "random histories with termination", keep)

def check_C09(ctx):
    models(ctx, "snd")
    keep = sel("resp.", "obs.", "start", "driver", "app.")
    ws  = graph_walks(ctx, "snd", BASE + ["ppause", "punpause"] + MGMT, 3, 3, 0, ctx.pick(3500, 40000))
    ws += graph_walks(ctx, "snd", BASE + MGMT, 2, 2, 0, ctx.pick(600, 3000), dto="empty")
    run(ctx, ws, "graph walks", keep)
    R = ctx.rng
    W = dict(accept=6, release=6, auto=1, ppause=2, punpause=2, repall=2, repone=4, pop=4, clear=0.5, inspect=4, first10=4, data=2, unknown=1.5)
    hs  = [random_history(R, [snd(R, mix=[1, 1, 6]), snd(R, "u", mix=[1, 1, 6], dto=R.choice(["msg", "empty"])), ep(R, nomw=1)], 100, W, terms=0.01, mass=True) for _ in range(ctx.pick(50, 800))]
    W2 = dict(W, clear=3, repall=3, first10=6)
    hs += [random_history(R, [snd(R, mix=[1, 1, 6], ps=R.choice([1, 2, 3, [5, 1], [3, 1, 2], [7, 2]]), strict=lives(R)), ep(R, ps=R.choice([1, 2, 3, [5, 1], [3, 1, 2], [7, 2]]), nomw=1)], 40, W2, terms=0.05, mass=True, again=2) for _ in range(ctx.pick(40, 500))]
    hs += [random_history(R, [snd(R, mix=[1, 1, 6])], 60, W, nk=5) for _ in range(ctx.pick(30, 400))]
    run(ctx, hs, "random management histories", keep)

def middleware(ctx):
    """The buffered half of C14."""
    keep = sel("ep.mw", "ep.push", "app.", "driver", "ep.payload")
    ws  = graph_walks(ctx, "ep", BASE + ["arm", "repall", "repone", "rpause", "runpause"], 2, 2, 2, ctx.pick(1500, 15000))
    ws += graph_walks(ctx, "ep", BASE + ["repone", "term"], 2, 2, 1, ctx.pick(700, 8000), dto="empty")
    run(ctx, ws, "buffered middleware: graph walks", keep)
    R = ctx.rng
    W = dict(accept=8, burst=2, release=12, hold=1, let=1, auto=1, arm=3, repall=1, repone=1, ppause=0.5, punpause=1, rpause=0.5, runpause=1)
    hs = [random_history(R, [ep(R), ep(R, "b", dto=R.choice(["msg", "empty"]))], 60, W, terms=0.03) for _ in range(ctx.pick(40, 600))]
    run(ctx, hs, "buffered middleware: random histories", keep)
