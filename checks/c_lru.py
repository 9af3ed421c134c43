"""C17: the LRU cache against LRU / LRURing."""
import os, random
from lib import cover
from lib.common import MachineryError
MC = """SPECIFICATION Spec
CONSTANTS M = {m} Keys = {keys} Vals = {vals} StaleTail = {st}
INVARIANT Refines Bounded
CHECK_DEADLOCK FALSE
"""
LOOK = ["len", "keys", "values", "items", "iter"]
def looks(rng, nk):
    return [[o, 0, 0] for o in LOOK] + [["peek", k, 0] for k in range(1, nk + 1)] + [["in", k, 0] for k in range(1, nk + 1)]

def check_C17(ctx):
    S = lambda n: "{" + ",".join(map(str, range(1, n + 1))) + "}"
    walks = []
    for m, nk, nv in ctx.pick([(1, 2, 1), (2, 3, 2), (3, 4, 1)], [(1, 2, 2), (2, 3, 2), (3, 4, 2), (4, 5, 1)]):
        dump = os.path.join(ctx.scratch, "l.dot")
        ctx.model("LRURing", MC.format(m=m, keys=S(nk), vals=S(nv), st="FALSE"), name=f"LRURing(max {m},{nk} keys,{nv} values)", dump=dump, timeout=1500, heap="8g")
        nodes, succ, init = cover.load(dump); os.unlink(dump)
        ws, seen, total = cover.walks(nodes, succ, init, maxlen=80, budget=ctx.pick(12000, 150000), rng=random.Random(ctx.seed))
        ctx.cov.setdefault("transition_cover", []).append(dict(max_size=m, keys=nk, covered=seen, of=total))
        ctx.log(f"cover max={m}: {seen}/{total} (state,op) pairs, {len(ws)} walks")
        for w in ws:
            rng, ops = random.Random(f"{ctx.seed}-{len(walks)}"), []
            for lab in w:
                o, k, v = lab.split(); k, v = int(k), int(v)
                if o == "init": continue
                ops.append([rng.choice(["item", "get"]) if o == "item" else rng.choice(["del", "popi"]) if o == "del" else o, k, v])
                ops += rng.sample(looks(rng, nk), 2)
            ops += looks(rng, nk) + [["pop", 0, 0]] * (m + 1)
            walks.append(dict(m=m, kt="ist"[len(walks) % 3], ops=ops))
    r = ctx.model("LRURing", MC.format(m=2, keys="{1,2,3}", vals="{1}", st="TRUE"), name="LRURing sanity(StaleTail)", expect=False)
    if r["ok"]: raise MachineryError("LRURing no longer tells a stale tail")
    R = ctx.rng
    W = dict(put=10, item=3, get=3, peek=1, popi=1.5, pop=1, clear=0.1, len=1, keys=0.5, values=0.5, items=1, iter=0.5, touch=0.7, **{"del": 2, "in": 1})
    for _ in range(ctx.pick(400, 6000)):
        m = R.choice([1, 2, 3, 4, 5, 8, 16]); nk = m + R.choice([1, 2, 5])
        w = dict(W, **R.choice([{}, {"del": 6, "popi": 6}, {"clear": 1}, {"put": 30}]))
        ops = [[o, R.randint(1, nk), R.randint(0, 9)] for o in R.choices(list(w), list(w.values()), k=R.randint(20, 150))]
        walks.append(dict(m=m, kt=R.choice("ist"), ops=ops + looks(R, nk) + [["pop", 0, 0]] * (m + 1)))
    groups = [walks[i::8] for i in range(8)]
    res = ctx.drivers("lru_driver.py", [dict(hist=g) for g in groups])
    traces, reps = [], []
    for g, r in zip(groups, res):
        if "crash" in r: ctx.violation(clause="driver.crash", got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g[:3]); continue
        traces += r["traces"]; reps += g
    if traces: ctx.validate("LRUTrace", traces, what="cache histories", replays=reps, chunks=8)
    ctx.assume += ["max_size of at least 1", "hashable keys that compare equal to themselves"]
