"""C22: orderly end of an application, against Lifecycle."""
from lib.common import MachineryError
CFG = "SPECIFICATION Spec\nCONSTANTS Items={{{i}}} Lives={l} Signals={s} Raise={r} KeepTaken={k} Linger={g}\nINVARIANT Kept OnDisk NotTwice\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
ENDS = ["TERM", "INT", "HUP", "double", "raise"]
ROUTES = ("ea", "eb", "sa")

def work(R, keys, n=8, clients=True):
    """a random workload of one life"""
    ops = []
    for _ in range(n):
        c = R.random()
        if c < .5:
            r = R.choice(ROUTES)
            if keys[r] < 40: keys[r] += 1; ops.append(["acc", r, keys[r] + 50 * ROUTES.index(r)])
        elif c < .6: ops.append(["auto", R.choice(ROUTES), R.choices(["ok", "ok", "X"], k=R.randint(1, 4))])
        elif c < .75: ops.append(["rel", R.choice(ROUTES), R.choice(["ok", "ok", "X"])])
        elif c < .8: ops.append(["pause", R.choice(ROUTES)])
        elif c < .85: ops.append(["settle"])
        elif clients and c < .95: ops.append(R.choice([["idle", "uds"], ["idle", "tcp"], ["half", "uds", "ea"], ["half", "tcp", "eb"], ["udp", 5], ["wait", 30, "tcp"], ["wait", 30, "uds"]]))
        else: ops.append(["sleep", R.choice([0, 1, 5])])
    for op in ops:                       # exceptions of an endpoint / of a client
        if op[0] == "auto": op[2] = [("exc" if op[1][0] == "e" else "other") if o == "X" else o for o in op[2]]
        if op[0] == "rel" and op[2] == "X": op[2] = "exc" if op[1][0] == "e" else "other"
    return ops

def check_C22(ctx):
    R = ctx.rng
    f = lambda **kw: CFG.format(**dict(dict(i="1,2,3", l=3, s=2, r="FALSE", k="TRUE", g="FALSE"), **kw))
    ctx.model("Lifecycle", f(), name="Lifecycle(3 items, 3 lives, 2 signals)", timeout=600)
    if ctx.thorough: ctx.model("Lifecycle", f(i="1,2,3,4", l=4, s=3), name="Lifecycle(4 items, 4 lives)", timeout=1800)
    for what, kw in (("the signal raises", dict(r="TRUE")), ("taken item dropped", dict(k="FALSE")), ("waits for clients", dict(g="TRUE"))):
        if ctx.model("Lifecycle", f(**kw), name=f"Lifecycle sanity({what})", expect=False)["ok"]: raise MachineryError(f"Lifecycle no longer notices: {what}")
    def conf(): return [dict(kind="ep", r="ea", ps=R.choice([1, 2, 5]), maxr=2), dict(kind="ep", r="eb", ps=R.choice([1, 3, 100]), maxr=0), dict(kind="snd", r="sa", ps=R.choice([1, 2, 5]), maxr=2)]
    def hist(lives):
        """some applications have only endpoints, some only senders"""
        has = R.choice([ROUTES, ROUTES, ROUTES, ("ea", "sa"), ("sa",), ("ea", "eb")])
        for x in lives: x["ops"] = [o for o in x["ops"] if not (o[0] in ("acc", "auto", "rel", "pause") and o[1] not in has)]
        return dict(seed=R.randrange(10 ** 9), conf=[c for c in conf() if c["r"] in has], lives=lives)
    H = []
    zero = lambda: {r: 0 for r in ROUTES}
    # every way to end, in every situation
    sit = {"empty": [], "queued": [["acc", "ea", 1], ["acc", "ea", 2], ["acc", "ea", 3], ["acc", "sa", 101], ["acc", "sa", 102], ["acc", "eb", 51]],
           "failed": [["auto", "ea", ["exc", "exc"]], ["auto", "sa", ["other"]], ["acc", "ea", 1], ["acc", "ea", 2], ["acc", "ea", 3], ["acc", "sa", 101], ["acc", "sa", 102], ["settle"]],
           "spin": [["acc", "ea", 1], ["acc", "ea", 2], ["spin", .6, "uds"]], "spintcp": [["acc", "sa", 101], ["spin", .6, "tcp"]],
           "spinhandler": [["auto", "ea", ["spin0.5", "ok"]], ["acc", "ea", 1], ["acc", "ea", 2]], "spinsend": [["auto", "sa", ["spin0.5"]], ["acc", "sa", 101], ["acc", "sa", 102]],
           "wait": [["acc", "ea", 1], ["wait", 60, "uds"], ["wait", 60, "tcp"], ["udp", 60]], "idle": [["acc", "eb", 51], ["idle", "uds"], ["idle", "tcp"], ["half", "uds", "ea"], ["half", "tcp", "ea"]],
           "clogtcp": [["acc", "ea", 1], ["acc", "ea", 2], ["clog", "tcp"]], "cloguds": [["acc", "ea", 1], ["acc", "sa", 101], ["clog", "uds"]],
           "paused": [["pause", "ea"], ["pause", "sa"], ["acc", "ea", 1], ["acc", "ea", 2], ["acc", "sa", 101], ["acc", "sa", 102]]}
    for n in (19, 22, 25, 28): sit[f"linger{n}"] = [["acc", "ea", 1], ["linger", "uds", n], ["acc", "sa", 101]]
    for ops in sit.values():
        for e in ENDS: H.append(hist([dict(ops=[list(o) for o in ops], end=e)]))
    # something queued, then a life that fails in one way or another, then a life that finds it all
    for p in (dict(body="before"), dict(body="nostart"), dict(body="after"), dict(task="setup"), dict(task="first"), dict(bind="uds"), dict(bind="tcp"), dict(bind="udp")):
        for _ in range(2):
            k = zero(); H.append(hist([dict(ops=work(R, k, 12), end=R.choice(ENDS)), dict(plan=p, ops=work(R, k, 3), end=R.choice(ENDS)), dict(ops=work(R, k, 6), end=R.choice(ENDS))]))
    for _ in range(ctx.pick(40, 600)):           # random lives
        k = zero(); H.append(hist([dict(ops=work(R, k, R.randint(2, 16)), end=R.choice(ENDS)) for _ in range(R.randint(1, 4))]))
    for _ in range(ctx.pick(200, 4000)):         # signals at any line of the code: while starting, while working
        k = zero(); first = work(R, k, 8, clients=False); all_ = R.random() < .3
        late = R.random() < .6
        plan = dict(line=R.randint(1, R.choice([30, 300, 1500]) * (4 if all_ else 1)), scope="all" if all_ else "eko", sigs=R.choices(list(("TERM", "INT", "HUP")), k=R.choice([1, 1, 2, 3])), gap=R.choice([1, 5, 40, 300]), armed="late" if late else "")
        H.append(hist([dict(ops=first, end=R.choice(ENDS)), dict(plan=plan, ops=([["line"]] if late else []) + work(R, k, 14, clients=False), end="line")]))
    for n in range(1, 17):                       # one signal after another before the event loop runs, and while that is dealt with
        k = zero(); H.append(hist([dict(ops=work(R, k, 4, clients=False), end=R.choice(ENDS)), dict(plan=dict(line=n, scope="eko", sigs=R.choices(list(("TERM", "INT", "HUP")), k=3), gap=R.choice([1, 3, 10])), ops=[], end="line")]))
    for armed, ns in (("once", range(1, 50)), ("loop", range(1, 340) if ctx.thorough else R.sample(range(1, 340), 30))):   # while the event loop is being started, in any code
        for n in ns:
            H.append(hist([dict(ops=[["acc", "ea", 1], ["acc", "sa", 101]], end="TERM"),
                           dict(plan=dict(line=n, scope="all", sigs=R.choices(list(("TERM", "INT", "HUP")), k=R.choice([1, 1, 2, 3])), gap=R.choice([1, 3, 10, 40]), armed=armed), ops=[], end="line")]))
    R.shuffle(H)
    jobs = [dict(hist=H[i::16], budget=ctx.pick(300, 2400), no={3: "tcp", 7: "udp", 11: "both"}.get(i, "")) for i in range(16)]
    res = ctx.drivers("life_driver.py", jobs, timeout=ctx.pick(500, 3000), par=16)
    traces, reps, where = [], [], []
    for g, r in zip(jobs, res):
        if "crash" in r: raise MachineryError(r["crash"] + r.get("stderr", ""))
        traces += r["traces"]; reps += g["hist"][:len(r["traces"])]; where += r["where"]
    ctx.cov["distinct_lines_interrupted"] = len(set(where)); ctx.cov["signals_at_lines"] = len(where)
    ctx.log(f"{len(traces)} histories, {len(where)} signals at {len(set(where))} different lines")
    ctx.validate("LifecycleTrace", traces, what="lives of a real application", replays=reps, chunks=4)
    ctx.assume += ["user code does not swallow cancellation (asyncio.CancelledError)", "promptly: within 12 s of the end of what computes without awaiting"]
