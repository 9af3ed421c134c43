"""C20: the log file set against Logging."""
import os, random
from lib import cover
from lib.common import MachineryError
CFG = "SPECIFICATION Spec\nCONSTANTS MaxSize = {ms} MaxFiles = {mf} MaxRec = {mr} Caps = {{{caps}}} Levels = {{{lv}}} DropOnShrink = {ds}\nINVARIANT Complete Bounded\nCHECK_DEADLOCK FALSE\n"

def check_C20(ctx):
    R, H = ctx.rng, []
    for ms, mf, mr, caps, lv in ctx.pick([(2, 2, 7, "0,2,3", "2,4"), (1, 1, 4, "0,1,3", "1,3,5")], [(2, 2, 9, "0,1,2,4", "2,4"), (1, 1, 6, "0,1,3", "1,3,5"), (3, 1, 9, "0,2,5", "1,4")]):
        dump = os.path.join(ctx.scratch, "lg.dot")
        ctx.model("Logging", CFG.format(ms=ms, mf=mf, mr=mr, caps=caps, lv=lv, ds="FALSE"), name=f"Logging(size {ms}, {mf} backups, {mr} records)", dump=dump, timeout=1500, heap="8g")
        ops, succ, init = cover.load(dump); os.unlink(dump)
        ws, seen, total = cover.walks(ops, succ, init, maxlen=45, budget=ctx.pick(3500, 60000), rng=random.Random(ctx.seed))
        ctx.cov.setdefault("transition_cover", []).append(dict(size=ms, backups=mf, covered=seen, of=total))
        ctx.log(f"cover: {seen}/{total} (state,op) pairs, {len(ws)} walks")
        for w in ws:
            o, lv0, cap0 = [], int(lv[0]), int(caps[0])
            for x in w:
                k, a, b = x.split()
                if not o and k in ("level", "cap") and R.random() < .7:        # given by the configuration instead
                    if k == "level": lv0 = int(a)
                    else: cap0 = int(a)
                    continue
                o.append([k, int(a)])
            H.append(dict(level=lv0, cap=cap0, ops=o + [["flush", 0]], maxb=R.choice([0, 700, 1100, 4000]), maxf=R.choice([1, mf, 3]), every=1))
    if ctx.model("Logging", CFG.format(ms=2, mf=2, mr=4, caps="0,3", lv="2,4", ds="TRUE"), name="Logging sanity(DropOnShrink)", expect=False)["ok"]:
        raise MachineryError("Logging no longer tells a dropped buffer")
    for _ in range(ctx.pick(120, 2500)):
        n = R.choice([10, 30, 80]); wt = R.choice([(10, 1, 1, 1), (10, 0, 0, .3), (6, 3, 1, .5), (6, .3, 3, .2)])
        o = []
        for k in R.choices(["log", "level", "cap", "flush"], wt, k=n):
            o.append([k, R.randint(1, 5) if k in ("log", "level") else R.choice([0, 1, 2, 3, 7, 20, 1000]) if k == "cap" else 0])
        H.append(dict(level=R.randint(1, 5), cap=R.choice([0, 0, 1, 2, 5, 10, 100]), ops=o + [[R.choice(["flush", "end"]), 0]], maxb=R.choice([0, 600, 1500, 5000, 10 ** 7]), maxf=R.choice([0, 1, 2, 5, 10]), every=int(n <= 30)))
    for _ in range(ctx.pick(40, 600)):
        H.append(dict(level=R.randint(1, 4), cap=R.choice([0, 1, 2, 5, 30]), ops=[["burst", [R.randint(2, 6), R.choice([20, 60])]]], maxb=R.choice([0, 4000, 20000, 10 ** 7]), maxf=39, every=0))
    for i, h in enumerate(H): h.update(seed=f"{ctx.seed}-{i}", console=int(R.random() < .25), ascii=int(R.random() < .6))
    R.shuffle(H)
    groups = [H[i::8] for i in range(8)]
    res = ctx.drivers("log_driver.py", [dict(hist=g) for g in groups], timeout=800)
    traces, reps = [], []
    for g, r in zip(groups, res):
        if "crash" in r: ctx.violation(clause="driver.crash", got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g[:3]); continue
        for t, h in zip(r["traces"], g):
            if "died" in t[0]: ctx.violation(clause="driver.died", got=t[0]["died"], want="finishes", replay=h)
            else: traces.append(t); reps.append(h)
    if traces: ctx.validate("LogTrace", traces, what="log histories", replays=reps, chunks=8)
    ctx.assume += ["messages that can be rendered", "the file system accepts the writes", "UTF-8 locale"]
