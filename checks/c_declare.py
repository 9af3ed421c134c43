"""C27: declarations of endpoints and senders against DeclareOps."""
FIELDS = dict(A=["id", "v"], B=["id", "n"], E=[])

def signature(R):
    """-> (source of the parameter list, those of dto and span_key it has, others it needs)"""
    ps = [p for p in ("dto", "span_key") if R.random() < 0.7]; R.shuffle(ps)
    need = ["who"] if R.random() < 0.06 else []
    note = dict(dto=": BaseModel", span_key=": SpanKey")
    show = lambda p: p + (note.get(p, "") if R.random() < 0.4 else "")
    out = [show(p) for p in ps + need]; R.shuffle(out)
    cut = R.randint(0, len(out)) if R.random() < 0.4 else len(out)
    pos, kwo = out[:cut], out[cut:]
    if R.random() < 0.3: (kwo if R.random() < 0.5 else pos).append("extra=5")
    if R.random() < 0.15 and pos and "=" not in pos[-1]: pos[-1] += "=None" if not pos[-1].startswith("who") else ""
    if kwo: pos.append(R.choice(["*", "*args"]))
    elif R.random() < 0.1 : pos.append("*args")
    if R.random() < 0.3: kwo.append("**kwargs")
    return ", ".join(pos + kwo), sorted(ps), need

def world(R, nd, ns, nc):
    routes = [R.choice(["d.a", "d.b.c", "d.X", "d.long.er.key", "d.\u00e9", "d.sp ace", "d.a.b", "d.aa"]) + (f"{i}" if i % 3 else f".{i}") for i in range(nd)]
    decls, senders, calls = [], [], []
    for f in range(1, nd + 1):
        sig, ps, need = signature(R)
        kind = R.choice(["ep", "ep", "bep"])
        opt = {k: v for k, v in dict(page_size=R.choice([1, 2, 100]), max_retries=R.choice([0, 1, 3])).items() if R.random() < 0.5}
        decls.append(dict(r=routes[f - 1] if f < 4 or R.random() < 0.75 else routes[R.randrange(f - 1)], kind=kind, f=f, sig=sig, ps=ps, need=need, ty=R.choice("ABE"), rty=R.choice("PQ"),
                          style=R.choice(["plain", "plain", "wrapped", "method"]), explicit=R.random() < 0.5, opt=opt))
    first = {}
    for d in decls: first.setdefault(d["r"], d)
    buf = set()
    for s in range(1, ns + 1):
        r = R.choice(sorted(first)) if R.random() < 0.93 else f"d.none{s}"
        d = first.get(r)
        kind = R.choice(["send", "send", "class", "bsend"])
        if kind == "bsend" and r in buf: kind = "send"
        if kind == "bsend": buf.add(r)
        sty = d["ty"] if d and R.random() < 0.7 else R.choice("ABE")
        opt = {k: v for k, v in dict(page_size=R.choice([1, 100]), max_retries=R.choice([0, 2])).items() if R.random() < 0.5}
        rty = ("K" if d["kind"] == "bep" else R.choice("PQE")) if d else "E"
        senders.append(dict(s=s, r=r, kind=kind, sty=sty, rty=rty, client=R.choice(["tuds", "uds", "tcp", "ttcp", "udp"]), form=R.randint(0, 2), fields=FIELDS[sty], explicit=R.random() < 0.5, opt=opt))
    n = 0
    for _ in range(nc):
        s = R.choice(senders); n += 1
        a = {x: (n if x == "id" else R.randint(-5, 10 ** 6)) for x in s["fields"]}
        if s["sty"] == "B" and s["form"] and R.random() < 0.0: a.pop("n")
        calls.append(dict(s=s["s"], a=a, k=R.choice([0, 0, R.randint(1, 4), R.randint(1, 40)])))
    order = [["d", i] for i in range(nd)] + [["s", i] for i in range(ns)]
    if R.random() < 0.5:                                       # senders among the endpoints, each kind in its own order
        mix = [x[0] for x in order]; R.shuffle(mix); it = dict(d=0, s=0); order = []
        for m in mix: order.append([m, it[m]]); it[m] += 1
    return dict(decls=decls, senders=senders, calls=calls, order=order)

def check_C27(ctx):
    R = ctx.rng
    ctx.model("Declare", "SPECIFICATION Spec\nCONSTANTS Routes = {\"p\", \"q\"} Fns = {1, 2} Own = {1, 2} Fresh = {3, 4} MaxReq = %d\nINVARIANT FirstWins OnceEach Only FreshKeys\nCHECK_DEADLOCK FALSE\n" % ctx.pick(2, 2), timeout=ctx.pick(300, 3000))
    groups = [world(R, R.randint(8, 30), R.randint(10, 30), ctx.pick(70, 100)) for _ in range(ctx.pick(16, 120))]
    res = ctx.drivers("declare_driver.py", groups, timeout=ctx.pick(200, 300))
    traces, reps = [], []
    for g, r in zip(groups, res):
        if "crash" in r: ctx.violation(clause="driver.crash", got=r["crash"] + r.get("stderr", ""), want="finishes", replay=g["calls"][:2]); continue
        traces += r["traces"]; reps.append(g)
    if traces: ctx.validate("DeclareTrace", traces, what="declarations and calls", replays=reps, chunks=8)
    ctx.cov["declarations"] = sum(len(g["decls"]) + len(g["senders"]) for g in groups)
    ctx.assume += ["parameters are passed by keyword: positional-only parameters of an endpoint function are outside", "what a **kwargs of an endpoint function receives is not judged"]
