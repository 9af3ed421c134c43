"""C19: one process per instance, against Lock."""
import random
from lib.common import MachineryError
CFG = "SPECIFICATION Spec\nCONSTANTS Procs = {{{p}}} PidFile = {pf} Recycle = TRUE\nINVARIANT {inv}\n{prop}CHECK_DEADLOCK FALSE\n"
STALE = [None, "", "\n", "garbage", "99999999\n", "4194303\n", "0\n", "-1\n", "12", "1\n", "123456789012345678901234567890\n", " \n", "\xff\xfe\x00\x80", "12 34\n", "x" * 5000, "3.5\n", "\n\n17\n"]
ENDS = ["kill", "zombie", "exit", "quit", "raise", "fork"]

def check_C19(ctx):
    R = ctx.rng
    ctx.model("Lock", CFG.format(p="1,2,3", pf="FALSE", inv="OneRuns NotStuck", prop="PROPERTY Decides\n"), name="Lock(3 processes)", timeout=600)
    if ctx.thorough: ctx.model("Lock", CFG.format(p="1,2,3,4", pf="FALSE", inv="OneRuns NotStuck", prop=""), name="Lock(4 processes)", timeout=1800, heap="12g")
    for inv in ("OneRuns", "NotStuck"):
        if ctx.model("Lock", CFG.format(p="1,2,3", pf="TRUE", inv=inv, prop=""), name=f"Lock sanity(process ids, {inv})", expect=False)["ok"]:
            raise MachineryError("Lock no longer tells a lock by process id from a real one")
    # how many lines does an undisturbed start execute?
    probe = ctx.driver("lock_driver.py", dict(hist=[dict(ops=[["start", "p1", None]])]))
    if "crash" in probe or not probe["lines"]:
        ctx.violation(clause="start", want="an undisturbed start succeeds", got=str(probe)[:2000]); return
    n = min(probe["lines"], 90)
    H = []
    tailops = lambda: [["start", "q1", None], ["end", R.choice(["p1", "p2"]), R.choice(ENDS)], ["start", "q2", None]] + \
        [["end", x, R.choice(ENDS)] for x in ("p1", "p2", "q1", "q2")] + [["start", "q3", None]]
    for a in range(n + 1):
        H.append([["file", R.choice(STALE)], ["start", "p1", a], ["start", "p2", None], ["cont", "p1", None]] + tailops())
        H.append([["file", R.choice(STALE)], ["start", "p1", a], ["end", "p1", R.choice(["kill", "zombie"])], ["start", "p2", None]] + tailops()[:1] + [["end", "p2", "kill"], ["start", "q2", None]])
    grid = [(a, b) for a in range(n + 1) for b in range(n + 1)]
    ctx.cov["preemption_points"] = n; ctx.cov["pairs_of_points"] = len(grid)
    for a, b in (grid if ctx.thorough else R.sample(grid, min(len(grid), 400))):
        H.append([["file", R.choice(STALE)], ["start", "p1", a], ["start", "p2", b]] + R.choice([[["cont", "p1", None], ["cont", "p2", None]], [["cont", "p2", None], ["cont", "p1", None]],
                 [["end", "p1", "kill"], ["cont", "p2", None]], [["cont", "p1", R.randint(a, n)], ["cont", "p2", R.randint(b, n)], ["cont", "p1", None], ["cont", "p2", None]]]) + tailops())
    for s in STALE:
        for e in ENDS: H.append([["file", s], ["start", "p1", None], ["start", "p2", None], ["end", "p1", e], ["start", "q1", None]])
    for e in ENDS:
        H.append([["prep", "p1", None], ["start", "p2", None], ["end", "p1", e], ["start", "q1", None]])
        H.append([["livepid"], ["start", "p1", None], ["start", "p2", None], ["end", "p1", e], ["livepid"], ["start", "q1", None]])
    for _ in range(ctx.pick(150, 4000)):          # random histories of up to five processes
        ops, names, at = [["file", R.choice(STALE)]], [], {}
        for k in range(R.randint(4, 16)):
            c = R.random()
            if c < .4 and len(names) < 5:
                x = f"p{len(names)}"; names.append(x); at[x] = R.choice([None, R.randint(0, n)]); ops.append(["start", x, at[x]])
            elif names and c < .75:
                x = R.choice(names); at[x] = None if at[x] is None else R.choice([None, R.randint(at[x], n)]); ops.append(["cont", x, at[x]])
            elif names: ops.append(["end", R.choice(names), R.choice(ENDS)])
        H.append(ops + [["cont", x, None] for x in names] + [["end", x, "kill"] for x in names] + [["start", "z", None]])
    R.shuffle(H)
    for _ in range(ctx.pick(16, 100)):            # the running application is not disturbed by starts that are refused
        ops = [["start", "p1", None], ["serve", "p1"], ["alive", "p1"]]
        for k in range(3): ops += [["start", f"r{k}", R.choice([None, R.randint(0, n)])], ["alive", "p1"]]
        H.append(ops + [["cont", f"r{k}", None] for k in range(3)] + [["alive", "p1"], [R.choice(["term", "end"]), "p1", "kill"], ["start", "q1", None]])
    groups = [H[i::8] for i in range(8)]
    K = [["alpha", "0", "lock"], ["alpha", "1", "lock"], ["beta", "0", "lock"], ["alpha", "0", "lock2"], ["alpha", "00", "lock"], ["alpha_b", "0", "lock"]]
    # application and instance that read alike without the separator, in another case, cut off, with other characters
    ALIKE = [[["alpha", "10"], ["alpha1", "0"], ["alpha_1", "0"]], [["alpha", "a"], ["alpha", "A"]], [["alpha", "1"], ["alpha", "01"], ["alpha", "1.0"]], [["alpha", "a_b"], ["alpha_a", "b"], ["alpha", "a.b"]],
             [["a" * 60, "0"], ["a" * 61, "0"]], [["alpha", "x" * 70 + "1"], ["alpha", "x" * 70 + "2"]], [["lock", "1"], ["alpha", "lock"], ["alpha", "1"]]]
    F = []
    for _ in range(ctx.pick(40, 300)):            # several applications, instances and lock directories; ekosis imported by every process
        ops, names = [], []
        pool = K if R.random() < .4 else [k + ["lock"] for k in R.choice(ALIKE)]
        for k in range(R.randint(4, 9)):
            if R.random() < .7 or not names: names.append(f"p{k}"); ops.append(["start", f"p{k}", None, R.choice(pool)])
            else: ops.append(["end", R.choice(names), R.choice(ENDS)])
        F.append(ops)
    jobs = [dict(hist=[dict(ops=o) for o in g]) for g in groups] + [dict(fresh=1, hist=[dict(ops=o) for o in F[i::8]]) for i in range(8)]
    res = ctx.drivers("lock_driver.py", jobs, timeout=800)
    traces, reps = [], []
    for g, r in zip(jobs, res):
        if "crash" in r: ctx.violation(clause="driver.crash", got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g["hist"][:3]); continue
        traces += r["traces"]; reps += g["hist"]
    if traces: ctx.validate("LockTrace", traces, what="starts and ends of real processes", replays=reps, chunks=4)
    ctx.assume += ["POSIX (the lock is the operating system's)", "nobody removes the lock file of a running application"]
