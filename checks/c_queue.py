"""C01 / C02: PaginatedQueue against AbsQueue / PagedQueue."""
import os, random
from lib import cover

CFG = """SPECIFICATION Spec
CONSTANTS PS0 = {ps} PSs = {pss} MaxKey = {mk}
INVARIANT TypeOK Unique
PROPERTY Refines PopHead
CHECK_DEADLOCK FALSE
"""

def graph_walks(ctx, ps, mk, budget, keep, pss=None):
    pss = pss or [ps]
    dump = os.path.join(ctx.scratch, f"pq-{ps}-{mk}.dot")
    ctx.model("PagedQueue", CFG.format(ps=ps, mk=mk, pss="{" + ",".join(map(str, pss)) + "}"), name=f"PagedQueue(PS={ps}->{pss},MaxKey={mk})", dump=dump)
    ops, succ, init = cover.load(dump)
    os.unlink(dump)
    if not keep("crash"):
        drop = {n for n, o in ops.items() if not keep(o.split()[0])}
        ops  = {n: o for n, o in ops.items() if n not in drop}
        succ = {n: [m for m in s if m not in drop] for n, s in succ.items() if n not in drop}
        # nodes only reachable through dropped ones
        seen, todo = set(init), list(init)
        while todo:
            for v in succ.get(todo.pop(), ()):
                if v not in seen: seen.add(v); todo.append(v)
        ops = {n: o for n, o in ops.items() if n in seen}
    ws, seen, total = cover.walks(ops, succ, init, maxlen=150, budget=budget, rng=random.Random(ctx.seed))
    ctx.cov.setdefault("transition_cover", []).append(dict(ps=ps, keys=mk, covered=seen, of=total))
    ctx.log(f"cover PS={ps} keys={mk}: {seen}/{total} (state,op) pairs, {len(ws)} walks, {sum(map(len, ws))} ops")
    # values differ from keys so that a payload mix-up shows; 'look' operations are sprinkled in
    out = []
    for w in ws:
        rng = random.Random(f"{ctx.seed}-{len(out)}"); n = 0; o2 = []
        for o in w:
            f = o.split(); n += 1
            if f[0] == "push": o = f"push {f[1]} {n}"
            elif f[0] in ("pop", "clear"): o = f[0]
            o2.append(o)
            if rng.random() < 0.25: o2.append(f"inspect {rng.randint(1, mk)}")
            if rng.random() < 0.1: o2.append(f"first {rng.randint(0, mk)}")
        out.append(dict(ps=ps, ops=o2))
    return out

def random_history(rng, n, restarts, crashes, big=False):
    ps  = rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 10] + ([25, 100] if big else []))
    nk  = rng.choice([3, 6, 12, 40, 90] + ([350] if big else []))
    ops, val, nxt = [], 0, 1
    while len(ops) < n:
        mode = rng.choice(["fill", "drain", "mix", "keys", "mix"])
        for _ in range(rng.randint(1, 4 * ps + 4)):
            x = rng.random()
            if mode == "fill" and x < 0.85 or mode == "mix" and x < 0.4 or mode == "keys" and x < 0.3:
                val += 1; k = rng.randint(1, nk) if rng.random() < 0.3 else nxt
                if k == nxt: nxt = nxt % nk + 1
                ops.append(f"push {k} {val}")
            elif mode == "drain" and x < 0.85 or mode == "mix" and x < 0.8:
                ops.append("pop")
            elif x < 0.9: ops.append(f"popk {rng.randint(1, nk)}")
            elif x < 0.96: ops.append(f"inspect {rng.randint(1, nk)}")
            elif x < 0.99: ops.append(f"first {rng.randint(0, 2 * ps + 2)}")
            else: ops.append("clear")
        if restarts and rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                ops.append("restart" if rng.random() < 0.4 else f"restart {rng.choice([1, 1, 2, 2, 3, 4, 6, 8])}")
        if crashes and rng.random() < 0.35:
            ops.append("crash")
    return dict(ps=ps, ops=ops[:n])

def run(ctx, walks, what, par=8):
    groups = [walks[i::par] for i in range(par)]
    groups = [g for g in groups if g]
    res = ctx.drivers("queue_driver.py", [dict(walks=g) for g in groups], timeout=ctx.pick(200, 2400))
    traces, reps = [], []
    for g, r in zip(groups, res):
        if "crash" in r:
            ctx.violation(clause="driver.crash", what=what, got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g)
            continue
        traces += r["traces"]; reps += g
    ctx.validate("QueueTrace", traces, clauses=CLAUSES[ctx.prop], what=what, replays=reps)

CLAUSES = dict(C01=lambda c: c.startswith("op.") and "crashinside" not in c,
               C02=lambda c: True)

def check_C01(ctx):
    q = lambda o: o not in ("crash", "restart")
    ws  = graph_walks(ctx, 1, 4, None, q)
    ws += graph_walks(ctx, 2, ctx.pick(5, 6), ctx.pick(9000, 60000), q)
    if ctx.thorough:
        ws += graph_walks(ctx, 3, 7, 60000, q)
    run(ctx, ws, "graph walks")
    hs = [random_history(ctx.rng, ctx.pick(250, 500), False, False, big=(i % 5 == 0)) for i in range(ctx.pick(48, 400))]
    run(ctx, hs, "random histories")
    hs = [random_history(ctx.rng, ctx.pick(200, 500), True, False) for i in range(ctx.pick(24, 200))]
    run(ctx, hs, "random histories on re-opened files")
    ctx.assume += ["single event loop thread (the framework is single-threaded)", "payloads are JSON-serialisable pydantic models"]

def check_C02(ctx):
    q = lambda o: True
    ws  = graph_walks(ctx, 1, 4, ctx.pick(2500, None), q)
    ws += graph_walks(ctx, 2, ctx.pick(5, 6), ctx.pick(4000, 60000), q)
    ws += graph_walks(ctx, 3, ctx.pick(4, 6), ctx.pick(4000, 80000), q, [1, 2, 3])
    if ctx.thorough:
        ws += graph_walks(ctx, 3, 7, 60000, q)
    for w in ws: w["snap"] = 3
    run(ctx, ws, "graph walks with restart and crash")
    hs = [random_history(ctx.rng, ctx.pick(150, 400), True, i % 2 == 0, big=(i % 5 == 0)) for i in range(ctx.pick(48, 400))]
    for i, h in enumerate(hs): h["snap"] = 2 if i % 2 else 0
    run(ctx, hs, "random histories with restart and crash")
    ctx.assume += ["sqlite commits are atomic and durable", "a kill inside a call is enumerated at sqlite commit granularity"]
