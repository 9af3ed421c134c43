"""C25: the Prometheus bridge against Metrics."""
import os, re
from lib import cover
from lib.common import REPO, HERE, MachineryError

def leaves(st):
    out = []
    def go(d, p):
        for k, v in d.items():
            if isinstance(v, dict): go(v, p + [k])
            else:
                num = isinstance(v, (int, float))
                safe = [re.sub(r"[^A-Za-z0-9_]", "_", x) for x in p + [k]]
                out.append(dict(path=p + [k], safe=safe, clean=all(re.fullmatch(r"[A-Za-z0-9_-]*", x) for x in p + [k]), val=str(float(v)) if num else "", num=num, neg=num and v < 0))
    go(st, [])
    names = ["_".join(x["safe"]) for x in out]
    for x, n in zip(out, names): x["clash"] = names.count(n) > 1
    return out

ROUTES = ["app.one", "app.two", "app", "echo", "dice_roller.roll", "deep.er.route.key", "a.b.c", "a.b", "@@#99asdf", "time-reporter.now", "caf\u00e9.x y", "g.call_count", "eco.log.level", "eco.statistics.get", "app.eco", "my.eco.x"]
WORDS = ["alpha", "beta", "hits", "queue-size", "x_total", "n_created", "Big", "9lives", "q_info", "sub-x", "rate"]
ODD = ["cache hits", "caf\u00e9", "a/b", "100%", "\u4e2d", "tab\tx", "quo\"te"]
def put(d, key, v):
    ks = key.split(".") if isinstance(key, str) else key
    for k in ks[:-1]:
        d = d.setdefault(k, {})
        if not isinstance(d, dict): return
    if not isinstance(d.get(ks[-1]), dict): d[ks[-1]] = v
def value(R):
    return R.choice([0, 1, R.randint(2, 10 ** 6), round(R.random() * 100, 3), -R.randint(1, 50), 2 ** 53 + 1, R.randint(0, 9) / 8, True])
def stats(R, name, inst, uniq):
    st = dict(timestamp=1.7e9 + R.random(), uptime=round(R.random() * 10 ** R.randint(0, 7), 3), gather_period=R.choice([1, 60, 300]), application=dict(name=name, instance=inst))
    for r in R.sample(ROUTES, R.randint(0, 8)):
        put(st, "endpoint_data." + r + ".call_count", R.choice([0, 0, 1, R.randint(2, 10 ** 7)]))
        if R.random() < .95:
            p = R.choice([-1.0, 0.0, round(R.random(), 6), 1e-5])
            put(st, "endpoint_data." + r + ".p95", p); put(st, "endpoint_data." + r + ".p99", p if R.random() < .5 or p < 0 else p * 2)
    for w in ("buffered_endpoint_sizes", "buffered_sender_sizes"):
        for r in R.sample(ROUTES, R.randint(0, 4)):
            if r != "g.call_count":
                put(st, f"{w}.{r}.pending", R.choice([0, R.randint(0, 10 ** 5)])); put(st, f"{w}.{r}.error", R.choice([0, R.randint(0, 10 ** 5)]))
    for _ in range(R.choice([0, 0, 1, 3, 6])):
        put(st, ".".join(R.sample(WORDS, R.randint(1, 3))), value(R))
    if R.random() < .15: put(st, [R.choice(WORDS) + "2", R.choice(ODD)], next(uniq))
    if R.random() < .15: put(st, [R.choice(ODD)], next(uniq))
    if R.random() < .1: put(st, ["a b"], next(uniq)); put(st, ["a/b"], next(uniq)); put(st, ["a_b"], next(uniq))
    if R.random() < .15: put(st, "version", R.choice(["1.2.3", "7", None, [1, 2]]))
    if R.random() < .3: st = dict(R.sample(list(st.items()), len(st)))
    return st

def history(R, vs, n, hold, uniq):
    svcs, vars_ = {}, []
    for v in vs:
        a = "s-" + ".".join(v["segs"]) + "-" + v["inst"]
        v = dict(v, addr=a, uinst=v["inst"].upper())
        vars_.append(v); p = svcs.setdefault(a, dict(protos=[]))["protos"]
        if v["proto"] not in p: p.append(v["proto"])
    ident = {}
    for v in vars_:
        a = v["addr"]
        if a not in ident:
            nm = "_".join(v["segs"])
            ident[a] = (nm, v["inst"]) if R.random() < .8 else (nm + "_" + a.replace(".", "_").replace("-", "_"), v["inst"])
    found = {v["addr"] for v in vars_}
    last, cycles = {}, []
    for c in range(n):
        cy = {}
        for a in found:
            x = last.get(a)
            if x is None or R.random() < .35:
                k = R.choices(["up", "empty", "refuse", "hang", "close", "garbage", "status", "odd"], [12, 1.5, 2, .7, .7, .7, .7, .7])[0]
                x = dict(kind=k)
                if R.random() < .06: x["slow"] = 2
                if k == "status": x["code"] = R.choice([100, 300, 400, 500, 600, 999, 12345])
                if k == "odd": x["raw"] = R.choice([None, {}, dict(statistics=None), dict(statistics=[]), dict(statistics="text"), "text", [1]])
            if x["kind"] in ("up", "empty"):
                st = stats(R, *ident[a], uniq) if x["kind"] == "up" else {}
                x = dict(x, stats=st, leaves=leaves(st), name=ident[a][0] if st else "", inst=ident[a][1] if st else "")
            cy[a] = last[a] = x
        cycles.append(cy)
    gw = [R.choices(["ok", "500", "drop", "400", "junk"], [8, 1, 1, 1, 1])[0] for _ in range(n)]
    if hold: gw[R.randrange(n - 1)] = "hold"
    return dict(vars=vars_, svcs=svcs, cycles=cycles, gw=gw, gp=R.choice([1, 5, 300]), job=R.choice(["", "", "my_job", "box-1"]),
                scheme=R.choice(["http://", "http://", ""]), slash=R.choice(["", "", "/"]), seed=R.randrange(10 ** 9))

def check_C25(ctx):
    R = ctx.rng
    cfg = "SPECIFICATION Spec\nCONSTANTS Svcs = {\"a\", \"b\"} MaxCount = 1 MaxCycle = %d Spoil = %s\nINVARIANT Exact NoEco\n%sCHECK_DEADLOCK FALSE\n"
    ctx.model("MetricsSystem", cfg % (ctx.pick(2, 3), "FALSE", "PROPERTY Goes\n"), timeout=ctx.pick(300, 2000))
    r = ctx.model("MetricsSystem", cfg % (2, "TRUE", ""), name="sanity: gives a service up at a statistic it cannot name", expect=False)
    if r["ok"]: raise MachineryError("MetricsSystem no longer notices a scraper that gives up")
    dump = os.path.join(ctx.scratch, "mt.dot")
    ctx.model("MetricsSpace", "SPECIFICATION Spec\nINVARIANT OnlyLocal NotEmpty\nCHECK_DEADLOCK FALSE\n", dump=dump)
    ops, _, _ = cover.load(dump); os.unlink(dump)
    space = sorted(tuple(o.split()) for o in ops.values())
    ctx.cov["variables"] = len(space)
    def uniq():
        n = 10 ** 6
        while True: n += 1; yield n + .5
    u = uniq(); hists = []
    for _ in range(ctx.pick(1, 6)):
        todo = list(space); R.shuffle(todo)
        while todo:
            seen, vs, rest = set(), [], []
            for o in todo:
                pre, proto, segs, inst, host, form = o
                k = (pre, proto, segs, inst)
                # which variables of a service are there besides must not hide what is found: one per name and kind
                if len(vs) < 12 and k not in seen: seen.add(k); vs.append(dict(pre=pre, proto=proto, segs=segs.split("."), inst=inst, host=host, form=form))
                else: rest.append(o)
            hists.append(history(R, vs, R.randint(3, 6), R.random() < .15, u)); todo = rest
    ctx.cov["environments"] = len(hists)
    env = dict(PYTHONPATH=f"{REPO}/ekosis_prometheus:{REPO}:{HERE}")
    groups = [hists[i::8] for i in range(8)]
    res = ctx.drivers("metrics_driver.py", [dict(hists=g) for g in groups], timeout=ctx.pick(500, 3000), env=env)
    traces, reps = [], []
    for g, r in zip(groups, res):
        if "crash" in r: ctx.violation(clause="driver.crash", got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g[:2]); continue
        traces += r["traces"]; reps += g
    if traces: ctx.validate("MetricsTrace", traces, what="pushes received by a gateway", replays=reps, chunks=8)
    ctx.cov["pushes"] = sum(1 for t in traces for e in t if e["ev"] == "cycle")
    ctx.assume += ["custom statistics whose names differ only in characters a metric name cannot have may hide each other",
                   "the instance of a service that was never reached may be spelled as in the variable"]
