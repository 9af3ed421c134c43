"""C21: the log shipper, against Shipper."""
import os, random, shutil, subprocess, tempfile
from lib import common
from lib.common import MachineryError, HERE
CFG = "SPECIFICATION SSpec\nCONSTANTS Lines={L} Files={F} Keep={K} Kills={k} Fails={f} Chain={chain} SaveFirst={sf} Created={cr} SaveLate={sl}\nINVARIANT {inv}\n{prop}CHECK_DEADLOCK FALSE\n"
def cfg(L, F, K, k, f, chain="TRUE", sf="TRUE", cr="TRUE", sl="TRUE", inv="InOrder Consecutive Once NotBefore", prop=""): return CFG.format(**locals())
OUT = ["ok", "ok", "ok204", "ok201", "500", "503", "400", "429", "302", "lost", "short", "killrecv", "killack"]
BAD = ["empty", "noise", "json", "shape", "array", "number", "utf8", "tstype", "sevtype", "bodytype", "attrtype", "null", "trunc", "attrs_missing"]

def build(ctx):
    """the shipper of the current tree, in scratch"""
    b = os.path.join(ctx.scratch, "ship"); os.makedirs(b)
    for cmd in (["cmake", "-G", "Ninja", "-S", os.path.join(common.REPO, "ekosis_log_shipper"), "-B", b], ["ninja", "-C", b, "ekosis_log_shipper"],
                ["gcc", "-shared", "-fPIC", "-O1", "-o", os.path.join(b, "shim.so"), os.path.join(HERE, "drivers", "shim.c"), "-ldl"]):
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
        if r.returncode: raise MachineryError(f"{cmd[:2]} failed:\n{(r.stdout + r.stderr)[-3000:]}")
    return os.path.join(b, "ekosis_log_shipper"), os.path.join(b, "shim.so")

def plan(R, n, files=("a",), bad=.15, rot=.2, down=True, tick=.35, kill=.05):
    p = [["new", f] for f in files if R.random() < .8] + [["start"]]
    have = {x[1] for x in p if x[0] == "new"}
    for _ in range(n):
        f = R.choice(files); c = R.random()
        if f not in have: p.append(["new", f]); have.add(f); continue
        if c < tick: p.append(["tick"] + R.choice([[], [], [R.choice(OUT)]]))
        elif c < tick + rot: p.append(["rot", f])
        elif c < tick + rot + kill: p.append(["kill"])
        elif c < tick + rot + kill + .04 and down: p.append([R.choice(["down", "up"])])
        elif c < tick + rot + kill + .06: p.append(["other", R.choice(["notes.txt", "x.log.bak", "y.logx", "z.lo"])])
        elif c < tick + rot + kill + .14: p.append([R.choice(["part", "fin"]), f])
        else: p.append(["line", f] + ([R.choice(BAD)] if R.random() < bad else []))
    return p

def check_C21(ctx):
    R = ctx.rng
    b, shim = build(ctx)
    ctx.log("built")
    ctx.model("Shipper", cfg(3, 3, 2, 1, 1, prop="PROPERTY Delivered\n"), name="Shipper(3 lines, 3 files, 1 kill, 1 failure)", timeout=600)
    if ctx.thorough:
        ctx.model("Shipper", cfg(4, 4, 3, 1, 1), name="Shipper(4 lines, 4 files)", timeout=900)
        ctx.model("Shipper", cfg(4, 5, 3, 2, 1), name="Shipper(4 lines, 5 files, 2 kills)", timeout=1800, heap="12g")
    for what, kw in (("only the newest file", dict(chain="FALSE")), ("not saved when first seen", dict(sf="FALSE")), ("inode alone", dict(cr="FALSE", K=1)), ("saved before posted", dict(sl="FALSE"))):
        if ctx.model("Shipper", cfg(**dict(dict(L=3, F=3, K=2, k=1, f=1), **kw)), name=f"Shipper sanity({what})", expect=False)["ok"]:
            raise MachineryError(f"Shipper no longer notices: {what}")
    H = []
    S = lambda: R.randrange(10 ** 9)
    for _ in range(ctx.pick(140, 3000)):      # the shipper held before each call, the application runs at random points
        files = R.choice([("a",), ("a",), ("a", "b"), ("a", "b", "c")])
        H.append(dict(seed=S(), keep=R.choice([50, 50, 50, 1, 2, 3]), fine=R.choice([.02, .1, .3, .6]), pkill=R.choice([0, 0, .01, .05]), kills=R.choice([1, 2, 5]),
                      posts=[R.choice(OUT) for _ in range(R.choice([0, 0, 3, 8]))], plan=plan(R, R.randint(6, 30), files)))
    for _ in range(ctx.pick(60, 1000)):       # one loop of the shipper at a time
        files = R.choice([("a",), ("a", "b")])
        H.append(dict(seed=S(), keep=R.choice([50, 50, 1, 2, 3]), plan=plan(R, R.randint(8, 40), files, kill=.1)))
    # killed before each of its calls, the file rotated 0-3 times before it is started again
    for at in range(ctx.pick(40, 60)):
        for rots in ((at % 4,) if not ctx.thorough else range(4)):
            H.append(dict(seed=S(), keep=50, crash=at, plan=[["new", "a"], ["line", "a"], ["start"], ["line", "a"], ["tick"], ["line", "a"], ["tick"]] + [x for _ in range(rots) for x in (["line", "a"], ["rot", "a"])] + [["line", "a"], ["start"], ["tick"], ["line", "a"], ["tick"]]))
    # the saved file is gone, and its inode in use again
    for keep in (1, 2, 3):
        for rots in range(keep, keep + 4):
            for pre in (0, 1, 3):
                H.append(dict(seed=S(), keep=keep, disk=1, plan=[["new", "a"]] + [["line", "a"]] * pre + [["start"], ["tick"], ["tick"], ["kill"]] + [x for _ in range(rots) for x in (["line", "a"], ["rot", "a"], ["line", "a"], ["line", "a"])] + [["line", "a"], ["start"], ["tick"]]))
    for k in BAD:                             # each kind of line that is no record: alone, first, in the middle, last, after a restart
        H.append(dict(seed=S(), plan=[["new", "a"], ["line", "a", k], ["start"], ["tick"], ["line", "a"], ["tick"], ["line", "a"], ["line", "a", k], ["line", "a"], ["tick"], ["line", "a", k], ["rot", "a"], ["line", "a", k], ["line", "a"], ["kill"], ["line", "a", k], ["start"], ["tick"]]))
    for o in sorted(set(OUT)):                # each way a post can go, around a rotation and a restart
        H.append(dict(seed=S(), plan=[["new", "a"], ["line", "a"], ["start"], ["tick", o], ["line", "a"], ["tick", o], ["tick", o], ["rot", "a"], ["line", "a"], ["tick", o], ["rot", "a"], ["tick"], ["line", "a"], ["tick", o], ["kill"], ["line", "a"], ["start"], ["tick", o], ["tick"]]))
    for _ in range(ctx.pick(16, 100)):        # at its own pace
        H.append(dict(seed=S(), free="plan", kicks=R.choice([0, 1, 1, 1]), plan=plan(R, 40, ("a", "b"), tick=.4)))
    for _ in range(ctx.pick(16, 80)):
        H.append(dict(seed=S(), free="handler", size=R.choice([400, 2000, 100000]), lines=ctx.pick(150, 600), pkill=R.choice([0, .01, .03])))
    if ctx.thorough:
        for _ in range(16): H.append(dict(seed=S(), plan=[["new", "a"], ["line", "a"], ["start"], ["tick", "hang"], ["line", "a"], ["rot", "a"], ["line", "a"], ["tick", "hang"], ["tick"]]))
    R.shuffle(H)
    disk = tempfile.mkdtemp(prefix="verif-C21-")     # a file system that reuses inodes
    try:
        jobs = [dict(bin=b, shim=shim, hist=H[i::16], budget=ctx.pick(300, 2400), disk=os.path.join(disk, str(i))) for i in range(16)]
        res = ctx.drivers("shipper_driver.py", jobs, timeout=ctx.pick(420, 3000), par=16)
    finally: shutil.rmtree(disk, ignore_errors=True)
    traces, reps, kinds, steps = [], [], set(), 0
    for g, r in zip(jobs, res):
        if "crash" in r: raise MachineryError(r["crash"] + r.get("stderr", ""))
        traces += r["traces"]; reps += g["hist"][:len(r["traces"])]; kinds |= set(r["kinds"]); steps += r["steps"]
    ctx.cov["calls_held"] = steps; ctx.cov["kinds_of_calls"] = sorted(kinds)
    ctx.log(f"{len(traces)} histories, {steps} calls of the shipper held, kinds {sorted(kinds)}")
    ctx.validate("ShipperTrace", traces, what="histories of the real log shipper", replays=reps, chunks=4)
    ctx.assume += ["log files are rotated the way logging.handlers.RotatingFileHandler does", "what is deleted by rotation before the shipper could read it is not owed", "the file system reports the time of creation (inode reuse)"]
