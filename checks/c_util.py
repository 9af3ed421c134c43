"""C28: span keys against SpanKeys; C29: tasks that nobody waits for against Detached."""
import os, random
from lib import cover
from lib.common import MachineryError
FORMS = ["obj", "bytes", "key", "str", "json", "text", "dump", "upper", "req", "rsp", "entry", "ids", "sbyt", "shex", "copy", "mcopy", "pick"]
MC = "SPECIFICATION Spec\nCONSTANTS Traces = {1, 2} Spans = {1, 2} Forms = {%s} Lossy = %s\nINVARIANT Identity Distinct\nCHECK_DEADLOCK FALSE\n"

def numbers(R, n, bits):
    """Different numbers that look alike: ends, leading zeros, shared halves."""
    pool = [0, 1, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, 1 << (bits - 8), 255, 10, 16, 1 << (bits // 2)]
    pool += [R.getrandbits(bits) for _ in range(6)] + [R.getrandbits(bits // 2) for _ in range(3)]
    a = R.choice(pool)
    pool += [a ^ 1, a ^ (1 << (bits - 1)), a ^ (1 << (bits // 2))]
    out = [a]
    while len(out) < n:
        x = R.choice(pool)
        if x not in out: out.append(x)
    return out

def check_C28(ctx):
    R = ctx.rng; walks = []
    slots = ["f1", "f2", "f3", "f4"]
    if ctx.model("SpanKeys", MC % (", ".join(f'"{s}"' for s in slots), "TRUE"), name="SpanKeys sanity(Lossy)", expect=False)["ok"]:
        raise MachineryError("SpanKeys no longer tells a lossy form")
    dump = os.path.join(ctx.scratch, "s.dot")
    ctx.model("SpanKeys", MC % (", ".join(f'"{s}"' for s in slots), "FALSE"), dump=dump)
    nodes, succ, init = cover.load(dump); os.unlink(dump)
    ws, seen, total = cover.walks(nodes, succ, init, maxlen=60, rng=random.Random(ctx.seed))
    ctx.cov.setdefault("transition_cover", []).append(dict(covered=seen, of=total))
    parse = lambda lab: [lab.split()[0], int(lab.split()[1]), int(lab.split()[2]), lab.split()[3]]
    for rep in range(ctx.pick(4, 60)):
        for w in ws:
            fs = R.sample(FORMS[1:], 4)
            walks.append(dict(ops=[parse(x) for x in w if not x.startswith("init")], forms=dict(zip(slots, fs), obj="obj"), traces=numbers(R, 2, 128), spans=numbers(R, 2, 64), seed=R.randrange(10 ** 6)))
    for a in FORMS:                      # every ordered pair of forms, on keys of every shape
        for b in FORMS:
            if a == b: continue
            for _ in range(ctx.pick(2, 20)):
                walks.append(dict(ops=[["new", 1, 1, "obj"], ["to", 0, 0, "x"], ["to", 0, 0, "y"], ["put", 0, 0, ""], ["eq", 1, 1, ""], ["eq", 1, 2, ""], ["eq", 2, 1, ""], ["has", 1, 1, ""], ["has", 2, 1, ""],
                                       ["new", 2, 1, "obj"], ["to", 0, 0, "y"], ["to", 0, 0, "x"], ["put", 0, 0, ""], ["has", 2, 1, ""], ["has", 1, 2, ""]],
                                  forms=dict(x=a, y=b), traces=numbers(R, 2, 128), spans=numbers(R, 2, 64), seed=R.randrange(10 ** 6)))
    groups = [walks[i::8] for i in range(8)]
    res = ctx.drivers("spankey_driver.py", [dict(walks=g) for g in groups])
    traces, reps = [], []
    for g, r in zip(groups, res):
        if "crash" in r: ctx.violation(clause="driver.crash", got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g[:2]); continue
        traces += r["traces"]; reps += g
    if traces: ctx.validate("SpanKeysTrace", traces, what="span keys", replays=reps, chunks=8)

DC = "SPECIFICATION Spec\nCONSTANTS Jobs = {%s} MaxPauses = %d Keeps = %s\nINVARIANT NeverLost Once NothingLeft\nCHECK_DEADLOCK FALSE\n"
def check_C29(ctx):
    R = ctx.rng; walks = []
    if ctx.model("Detached", DC % ("1, 2", 1, "FALSE"), name="Detached sanity(not kept)", expect=False)["ok"]:
        raise MachineryError("Detached no longer tells a job that is not kept")
    dump = os.path.join(ctx.scratch, "d.dot")
    ctx.model("Detached", DC % ("1, 2", 2, "TRUE"), dump=dump)
    nodes, succ, init = cover.load(dump); os.unlink(dump)
    ws, seen, total = cover.walks(nodes, succ, init, maxlen=30, rng=random.Random(ctx.seed))
    ctx.cov.setdefault("transition_cover", []).append(dict(covered=seen, of=total))
    for rep in range(ctx.pick(3, 20)):
        for w in ws:
            ops = [x.split() for x in w]
            walks.append(dict(ops=[[x[0], int(x[1]), x[2], x[3], int(x[4])] for x in ops if x[0] not in ("init", "end")], seed=R.randrange(10 ** 6), uv=R.random() < 0.5))
    for _ in range(ctx.pick(150, 3000)):                         # many jobs at once
        ops, left, n = [], {}, 0
        for _ in range(R.randint(10, 60)):
            x = R.random(); live = [j for j in left if left[j]]
            if x < 0.4: n += 1; left[n] = R.choice([0, 1, 1, 2, 5]); ops.append(["call", n, R.choice(["soon", "soon", "task", "loop"]), R.choice(["ok", "ok", "raise"]), left[n]])
            elif x < 0.8 and live: j = R.choice(live); left[j] -= 1; ops.append(["wake", j, "", "", 0])
            else: ops.append(["gc", 0, "", "", 0])
        walks.append(dict(ops=ops, seed=R.randrange(10 ** 6), uv=R.random() < 0.5))
    groups = [walks[i::8] for i in range(8)]
    res = ctx.drivers("detached_driver.py", [dict(walks=g) for g in groups], timeout=ctx.pick(300, 1500))
    traces, reps = [], []
    for g, r in zip(groups, res):
        if "crash" in r: ctx.violation(clause="driver.crash", got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g[:2]); continue
        traces += r["traces"]; reps += g
    if traces: ctx.validate("DetachedTrace", traces, what="detached jobs", replays=reps, chunks=8)
    ctx.assume += ["the application is not terminated while the job is unfinished"]

BC = "SPECIFICATION Spec\nCONSTANTS Tasks = {%s} Lives = %d Guarded = %s Patient = %s Isolated = %s\nINVARIANT Ready Cleaned Kept OnlyThen Alone\n%sCHECK_DEADLOCK FALSE\n"
def check_C30(ctx):
    R = ctx.rng; walks = []
    f = lambda ts="1, 2", n=2, g="TRUE", p="TRUE", i="TRUE", live="": BC % (ts, n, g, p, i, live)
    for what, kw in (("requests before tasks", dict(g="FALSE")), ("queues written out first", dict(p="FALSE")), ("a task that is over ends all", dict(i="FALSE"))):
        if ctx.model("Background", f(**kw), name=f"Background sanity({what})", expect=False)["ok"]: raise MachineryError(f"Background no longer tells: {what}")
    ctx.model("Background", f(live="PROPERTY Ends\n", **(dict(ts="1, 2, 3") if ctx.thorough else {})))
    dump = os.path.join(ctx.scratch, "b.dot")
    ctx.model("Background", f(n=1), name="Background(one life, dumped)", dump=dump)
    nodes, succ, init = cover.load(dump); os.unlink(dump)
    ws, seen, total = cover.walks(nodes, succ, init, maxlen=40, rng=random.Random(ctx.seed))
    ctx.cov.setdefault("transition_cover", []).append(dict(covered=seen, of=total))
    def life(ops, nt, q=None):
        cl = ["queue"] * (q or 0) + [R.choice(["quick", "raise"]) for _ in range(nt - (q or 0))] if q is not None else [R.choice(["quick", "raise", "queue", "queue"]) for _ in range(nt)]
        R.shuffle(cl)
        ts = [dict(j=j + 1, clean=c) for j, c in enumerate(cl)] + ([dict(j=nt + 1, clean="short")] if R.random() < .3 else [])
        return dict(tasks=ts, ops=ops, wait=R.choice([0.02, 0.3]))
    covered = []
    for w in ws:
        ops = [x.split() for x in w]; ops = [[x[0], int(x[1]), x[2]] for x in ops if x[0] != "in"]
        if len(ops) > 1: covered.append(life(ops[1:], 2, ops[0][1]))
    R.shuffle(covered)
    if not ctx.thorough: covered = covered[:120]
    def wild():
        nt = R.randint(1, 5); live = set(range(1, nt + 1)); ops = [["look", 0, "x"]] if R.random() < .9 else []
        for _ in range(R.randint(0, 15) if ops else 0):
            x = R.random()
            if not live or x < .2: ops.append(["look", 0, "x"])
            elif x < .8: ops.append(["beat", R.choice(sorted(live)), "x"])
            else: j = R.choice(sorted(live)); live.discard(j); ops.append(["finish", j, "x"])
        ops.append(["fail", R.choice(sorted(live)), "x"] if live and ops and R.random() < .4 else ["end", 0, R.choice(["TERM", "INT", "HUP"])])
        return life(ops, nt)
    lives = covered + [wild() for _ in range(ctx.pick(80, 1500))]; R.shuffle(lives)
    while lives:
        n = R.randint(1, 4); walks.append(dict(lives=lives[:n])); lives = lives[n:]
    groups = [walks[i::8] for i in range(8)]
    res = ctx.drivers("background_driver.py", [dict(walks=g) for g in groups], timeout=ctx.pick(500, 3000))
    traces, reps = [], []
    for g, r in zip(groups, res):
        if "crash" in r: ctx.violation(clause="driver.crash", got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g[:2]); continue
        traces += r["traces"]; reps += g
    if traces: ctx.validate("BackgroundTrace", traces, what="applications with tasks of their own", replays=reps, chunks=8)
    ctx.assume += ["a task's clean-up does not wait for anything but the queueing of a message", "tasks let themselves be cancelled"]
