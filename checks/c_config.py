"""C18: configuration against Config / ConfigSpace."""
import os, random
from lib import cover
APPS = [("my_app.py", "my_app", "MY_APP"), ("MyCoolApp.py", "my_cool_app", "MY_COOL_APP"), ("app", "app", "APP"), ("shipping2.py", "shipping2", "SHIPPING2")]
INSTS = [("0", "0"), ("feeds_cats", "FEEDS_CATS"), ("Main", "MAIN"), ("7b", "7B")]
LEVELED = ["STAT_GP", "STAT_HL", "LOG_LEVEL", "LOG_BUF_SIZE", "LOG_MAX_SIZE", "LOG_MAX_FILES", "BUFFER_DIR", "LOG_DIR", "LOCK_DIR", "DEFAULT_DIR"]
PARTED = ["TCP", "UDP", "UDS"]
NAMES = ["DB", "DATABASE_NAME", "X"]

class Gen:
    def __init__(self, rng, host=None):
        self.r, self.n, self.host = rng, 0, host
    def value(self, s):
        self.n += 1
        if s.endswith("_DIR"): return f"@S@/d{self.n}"
        if s == "LOG_LEVEL": return self.r.choice(["debug", "info", "warn", "error", "critical"])
        return str(1000 + self.n)
    def part(self, s):
        self.n += 1
        if s == "UDS": return ["@S@/u%d" % (self.n % 3), self.r.choice(["DEFAULT", "DEFAULT", f"s{self.n}.sock"])]
        return [f"127.{self.r.randint(1, 250)}.{self.r.randint(0, 250)}.{self.r.randint(2, 250)}", str(self.r.randint(20000, 32000))]
    def case(self, comb, how="cfg", app=None, inst=None):
        """comb: setting -> (i, a, m, f, foreign)"""
        script, name, A = app or self.r.choice(APPS); inst, I = inst or self.r.choice(INSTS)
        c = dict(how=how, script=f"@S@/{script}", name=name, A=A, inst=inst, I=I, env={}, hasfile=0, file={}, parts={s: ["", ""] for s in PARTED}, names=NAMES,
                 dirs=["@S@/u0", "@S@/u1", "@S@/u2"], addrs=[])
        hasfile = any(v[3] != "none" for v in comb.values())
        c["hasfile"] = int(hasfile)
        def var(n, st, v):
            if st == "set": c["env"][n] = v
            elif st == "empty": c["env"][n] = ""
        others = lambda base: [f"{base}_{A}_{I}X", f"{base}_{A}_{I}_2", f"{base}_{A}_9Z", f"{base}_{A}X", f"{base}_OTHER", f"{base}_OTHER_{I}", f"{base}_{A}_TWO", f"{base}_{I}"]
        for s, (i, a, m, f, x) in comb.items():
            if s in PARTED:
                p = self.part(s); j = ("/" if s == "UDS" else ":").join(p)
                if i == "set": c["env"][f"ECOENV_{s}_{A}_{I}"] = j; c["parts"][s] = p
                elif i == "empty": c["env"][f"ECOENV_{s}_{A}_{I}"] = ""
                # other levels do not exist for these: the variables are foreign and must be ignored
                if a == "set": c["env"][f"ECOENV_{s}_{A}"] = ("/" if s == "UDS" else ":").join(self.part(s))
                if m == "set": c["env"][f"ECOENV_{s}"] = ("/" if s == "UDS" else ":").join(self.part(s))
                if f == "set":
                    q = self.part(s)
                    for k in self.r.choice([(1,), (2,), (1, 2)]): c["file"][f"{s}.{k}"] = q[k - 1]
                if x == "TRUE":
                    for o in others(f"ECOENV_{s}"): c["env"].setdefault(o, ("/" if s == "UDS" else ":").join(self.part(s)))
            elif s.startswith("EXTRA"):
                n = s.split(".")[1]
                v = lambda: f"v{self.n}-{self.r.randint(0, 999)}"
                if i == "set": self.n += 1; c["env"][f"ECOENV_EXTRA_{A}_{I}_{n}"] = v()
                if a == "set": self.n += 1; c["env"][f"ECOENV_EXTRA_{A}_{n}"] = v()
                if m == "set": self.n += 1; c["env"][f"ECOENV_EXTRA_{n}"] = v()
                if f == "set": self.n += 1; c["file"]["EXTRA." + n] = v()
                if x == "TRUE":
                    for o in (f"{A}_9Z", f"{A}_TWO", "OTHER", f"OTHER_{I}"): self.n += 1; c["env"].setdefault(f"ECOENV_EXTRA_{o}_{n}", v())
            else:
                var(f"ECOENV_{s}_{A}_{I}", i, self.value(s)); var(f"ECOENV_{s}_{A}", a, self.value(s)); var(f"ECOENV_{s}", m, self.value(s))
                if f == "set" and s != "DEFAULT_DIR": c["file"][s] = self.value(s)
                if x == "TRUE":
                    for o in others(f"ECOENV_{s}"): c["env"].setdefault(o, self.value(s))
        if hasfile and self.r.random() < 0.5:
            c["others"] = {"9z": dict(stats_keeper=dict(gather_period=4242, history_length=41), lock_directory="@S@/o1", buffer_directory="@S@/o2",
                                      tcp=dict(host="127.9.9.9", port=1), logging=dict(level="critical"), extra=dict(DB="other", X="other"))}
        return c

def check_C18(ctx):
    dump = os.path.join(ctx.scratch, "cs.dot")
    ctx.model("ConfigSpace", "SPECIFICATION Spec\nINVARIANT Own Precedence\nCHECK_DEADLOCK FALSE\n", dump=dump)
    ops, _, _ = cover.load(dump); os.unlink(dump)
    space = sorted(tuple(o.split()) for o in ops.values())
    ctx.cov["combinations_per_setting"] = len(space)
    R = ctx.rng; g = Gen(R)
    sets = LEVELED + PARTED + [f"EXTRA.{n}" for n in NAMES]
    cases = []
    for f in ("none", "file"):                       # with or without a file is a choice for the whole process
        sub = [o for o in space if (o[3] == "none") == (f == "none")]
        for _ in range(ctx.pick(2, 30)):
            perm = {s: R.sample(sub, len(sub)) for s in sets}
            cases += [g.case({s: perm[s][k] for s in sets}) for k in range(len(sub))]
    # one setting given at a time (all others unset), and each setting with only other people's variables around
    for s in sets:
        for o in R.sample(space, ctx.pick(20, len(space))): cases.append(g.case({s: o}))
    groups = [cases[i::8] for i in range(8)]
    # ---------------------------------------------------------------- running applications
    runs = []
    for k in range(ctx.pick(40, 400)):
        g2 = Gen(R); lv = lambda: R.choice(space)
        f = R.random() < 0.6
        pick = lambda: R.choice([o for o in space if (o[3] == "none") != f])
        comb = {s: pick() for s in ("LOG_LEVEL", "BUFFER_DIR", "LOG_DIR", "LOCK_DIR", "DEFAULT_DIR", "TCP", "UDP", "UDS", "EXTRA.DB", "EXTRA.X") if R.random() < 0.8}
        for s in ("DEFAULT_DIR", "BUFFER_DIR", "LOG_DIR", "LOCK_DIR"):      # keep every file inside the scratch directory
            o = comb.get(s, ("unset", "unset", "unset", "silent" if f else "none", "FALSE"))
            comb[s] = o if "set" in o[:3] else (o[0], o[1], "set", o[3], o[4])
        c = g2.case(comb, "run")
        # one address space per run; parts of addresses are combined freely by files
        vals = list(c["env"].values()) + list(c["file"].values())
        hosts = sorted({x.split(":")[0] for x in vals if x.startswith("127.")} | {"127.0.0.1"})
        ports = sorted({x.split(":")[1] for x in vals if x.startswith("127.") and ":" in x} | {v for q, v in c["file"].items() if q in ("TCP.2", "UDP.2")})
        own = [c["parts"]["TCP"], c["parts"]["UDP"], [c["file"].get("TCP.1"), c["file"].get("TCP.2")], [c["file"].get("UDP.1"), c["file"].get("UDP.2")]]
        hs = {x[0] for x in own if x[0]} | {"127.0.0.1"}; ps = {x[1] for x in own if x[1]} | {"8888", "8889"}
        foreign = [v.split(":") for v in c["env"].values() if v.startswith("127.")]
        c["addrs"] = [list(x) for x in sorted({(h, p) for h in hs for p in ps} | {tuple(x) for x in R.sample(foreign, min(3, len(foreign)))})]
        if any((q in c["file"]) and (c["env"].get(f"ECOENV_{q[:3]}_{c['A']}_{c['I']}", "") == "") and not all(f"{q[:3]}.{j}" in c["file"] for j in (1, 2)) for q in ("TCP.1", "TCP.2", "UDP.1", "UDP.2", "UDS.1", "UDS.2")):
            for q in ("TCP", "UDP", "UDS"):          # a section with one part only would use the fixed default of the other: not run here
                for j in (1, 2): c["file"].pop(f"{q}.{j}", None)
        c["dirs"] = sorted(set(c["dirs"]) | {v for v in vals if v.startswith("@S@/d")} | {"@S@/o1", "@S@/o2"})
        c["args"] = R.choice([["-lfo"], ["-lfo"], [], ["-lco"]])
        runs.append(c)
    for k in range(ctx.pick(3, 8)):                  # gathering period and history length of a running application
        n = (1, 2, 3)[k % 3]
        c = Gen(R).case({"UDS": ("set", "unset", "unset", "none", "FALSE"), "BUFFER_DIR": ("unset", "unset", "set", "none", "FALSE"),
                         "DEFAULT_DIR": ("unset", "unset", "set", "none", "FALSE")}, "run")
        c["env"].update({"ECOENV_STAT_GP": "300", f"ECOENV_STAT_GP_{c['A']}": "1", f"ECOENV_STAT_HL_{c['A']}_{c['I']}": str(n), f"ECOENV_STAT_HL_{c['A']}": "5"})
        c["dirs"] += [v for v in c["env"].values() if v.startswith("@S@/d")]
        c.update(args=["-lfo"], wait=n + 1.7); runs.append(c)
    inv = []
    bad = [("TCP", v) for v in (":8080", "localhost:", "localhost", "127.0.0.1:http", "127.0.0.1:80:90", "nothing")] + \
          [("UDP", v) for v in (":8080", "localhost:", "localhost", "127.0.0.1:x1")] + \
          [("UDS", v) for v in ("@S@/none/x.sock", "justname.sock", "@S@/u0/", "@S@/none/DEFAULT")] + \
          [("LOG_LEVEL", v) for v in ("verbose", "trace", "warnn", "5")] + \
          [(s, v) for s in ("STAT_GP", "STAT_HL", "LOG_BUF_SIZE", "LOG_MAX_SIZE", "LOG_MAX_FILES") for v in ("abc", "1.5x", "ten")]
    for s, v in bad:
        c = Gen(R).case({"BUFFER_DIR": ("unset", "unset", "set", "none", "FALSE"), "DEFAULT_DIR": ("unset", "unset", "set", "none", "FALSE")}, "invalid")
        lvl = R.choice(["i", "a", "m"]) if s in LEVELED else "i"
        c["env"][f"ECOENV_{s}" + {"i": f"_{c['A']}_{c['I']}", "a": f"_{c['A']}", "m": ""}[lvl]] = v
        if lvl != "m" and s in LEVELED and s != "LOG_LEVEL": c["env"][f"ECOENV_{s}"] = "10"      # a valid one at a less specific level
        c.update(which=s, args=["-lfo"]); c["dirs"] += [v for v in c["env"].values() if v.startswith("@S@/d")]
        inv.append(c)
    for k, v in [("LOG_LEVEL", "loud"), ("STAT_GP", "abc"), ("STAT_HL", "many"), ("LOG_BUF_SIZE", "x"), ("TCP.2", "port"), ("UDP.2", "p"), ("LOG_MAX_FILES", "n")]:
        c = Gen(R).case({"BUFFER_DIR": ("unset", "unset", "set", "silent", "FALSE"), "DEFAULT_DIR": ("unset", "unset", "set", "silent", "FALSE")}, "invalid")
        c["file"][k] = v; c.update(which="file." + k, args=["-lfo"]); c["dirs"] += [v for v in c["env"].values() if v.startswith("@S@/d")]
        inv.append(c)
    for i, c in enumerate(runs + inv): groups[i % 8].append(c)
    res = ctx.drivers("config_driver.py", [dict(cases=x) for x in groups], timeout=800)
    traces, reps = [], []
    for x, r in zip(groups, res):
        if "crash" in r: ctx.violation(clause="driver.crash", got=r["crash"] + r.get("stderr", ""), want="finishes", replay=x[:3]); continue
        traces += r["traces"]; reps += x
    ctx.cov.update(processes=len(cases), applications=len(runs), invalid_values=len(inv))
    if traces: ctx.validate("ConfigTrace", traces, what="configurations", replays=reps, chunks=8)
    ctx.assume += ["application and instance names whose upper-case concatenations do not coincide (APP A instance B_C vs APP A_B instance C)",
                   "an invalid value at a level that a more specific level or the file overrides is not judged"]
