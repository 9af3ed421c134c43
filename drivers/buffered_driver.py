"""Runs walks over buffered endpoints / senders on the puppet application and records traces."""
import drv, random, select, signal, time
import cli
from puppet import *

MG = {"rpause": "receiving.pause", "runpause": "receiving.unpause", "ppause": "processing.pause", "punpause": "processing.unpause",
      "apause": "all.pause", "aunpause": "all.unpause", "data": "data", "first10": "errors.get_first_10", "inspect": "errors.inspect_request",
      "pop": "errors.pop_request", "repone": "errors.reprocess.one", "repall": "errors.reprocess.all", "clear": "errors.clear"}
MS = dict(MG, ppause="send_process.pause", punpause="send_process.unpause")
SIG = dict(TERM=signal.SIGTERM, INT=signal.SIGINT, HUP=signal.SIGHUP)

def info(q, kind):
    """[pending, error, receiving paused, processing paused] of a management answer"""
    if not isinstance(q, dict) or "database_sizes" not in q: return []
    s = q["database_sizes"]
    if kind == "ep" and "receiving_paused" in q: return [s["pending"], s["error"], int(q["receiving_paused"]), int(q["processing_paused"])]
    if kind == "snd" and "send_process_paused" in q: return [s["pending"], s["error"], 0, int(q["send_process_paused"])]
    return [-1]

class Run:
    def __init__(self, w):
        self.held = {}                # route: (key, connection) of a request that is held in before_push
        self.stop = False             # the application stalled or hung: no use going on
        self.w, self.conf = w, {c["r"]: c for c in w["conf"]}
        self.app = App(w["conf"], random.Random(w.get("seed", 0)))

    def mroute(self, r, n):
        k = self.conf[r]["kind"] if r in self.conf else "ep"
        return ("eco.buffered_handler." + MG[n]) if k == "ep" else ("eco.buffered_sender." + MS[n])

    def name(self, r):
        return ROUTE(r)

    def observe(self, limit=None):
        st, d, ok = self.app.call("ctl.settle", dict(arg=limit))
        busy, stalled = d["out"] if st == 0 else ({}, False)
        if stalled: self.stop = True
        obs = {}
        for r, c in self.conf.items():
            o = dict(i=[-1], f=[-1], b=busy.get(r, [-1]))
            s, d, ok = self.app.call(self.mroute(r, "data"), dict(queue_route_key=self.name(r)))
            if s == 0: o["i"] = info(d["queue_data"], c["kind"])
            s, d, ok = self.app.call(self.mroute(r, "first10"), dict(queue_route_key=self.name(r)))
            if s == 0 and isinstance(d["queue_data"], list): o["f"] = [kid(x) for x in d["queue_data"]]
            obs[r] = o
        return obs

    def split(self, evs):
        """Events per route: handler/send calls (keys; payload must match) and buffered middleware calls."""
        out = {r: dict(st=[], mw=[], pay=[], push=[], toks=[]) for r in self.conf}
        for e in evs:
            if e["e"] not in ("st", "b", "a", "push"): continue
            r = e["r"]
            if r not in out: r = next(iter(out))          # a hook was given a foreign DTO: shows up as wrong payload
            want = 0 if self.conf[r].get("dto") == "empty" else e["k"]
            if e["v"] != want or r != e["r"]: out[r]["pay"].append([e["k"], e["v"]])
            if e["e"] == "st": out[r]["st"].append(e["k"])
            elif e["e"] in ("b", "a"): out[r]["mw"].append(dict(h=e["e"], w=e["w"], k=e["k"], n=e["n"], m=e["m"]))
            else:
                out[r]["push"].append(dict(w=e["w"], k=e["k"]))
                if e["w"] == 2: out[r]["toks"].append([e["k"], e["m"]])
        return out

    def answer(self, f):
        try: return json.loads(f.readline() or b'{"status":-2,"span_key":null}')
        except (OSError, ValueError): return dict(status=-2, span_key=None)

    def strange(self, r, k):
        """The route does not take this key's data in this life."""
        return r in self.conf and strict(self.conf[r], self.app.inc - 1) and misfit(k)
    def mis(self):
        return {r: [k for k in range(1, 400) if self.strange(r, k)] for r in self.conf}

    def body(self, r, k):
        return {} if self.conf[r].get("dto") == "empty" else fields(k)

    def do(self, op):
        n, r, k, o, ks = op[0], op[1], op[2], op[3], op[4]
        e = dict(ev="op", n=n, r=r, k=k, o=o, m=0, ks=ks, ms=[], st=0, q=[], d=[], l=[], msg=1, sk=1)
        a = self.app
        snd = r in self.conf and self.conf[r]["kind"] == "snd"
        if (n in ("accept", "hold") and self.strange(r, k)) or (n == "burst" and any(self.strange(r, x) for x in ks)): n = e["n"] = "nop"
        if n == "nop": pass
        elif n == "accept":
            e["m"] = a.seq + 1
            if snd: st, d, ok = a.call("ctl.enqueue", dict(route=r, arg=[k, k]))
            else:
                st, d, ok = a.call(self.name(r), self.body(r, k), k)
                if st == 0 and not (isinstance(d, dict) and d.get("span_key") == KEYJ[k]): ok = False
            e["st"], e["sk"] = st, int(ok)
            if st == 0 and not snd: a.seq += 1
        elif n == "hold":               # a request the middleware keeps waiting (refused at once if receiving is paused)
            if r in self.held: n = e["n"] = "nop"
            else:
                a.call("ctl.hold", dict(route=r, arg=k))
                f = a.connect(); fd = a.lastfd; a.send(f, self.name(r), self.body(r, k), k); f.flush()
                end = time.time() + 10
                while time.time() < end:
                    if select.select([fd], [], [], 0)[0]:
                        z = self.answer(f); e["st"], e["sk"] = z["status"], int(z["span_key"] == KEYJ[k]); f.close(); f = None; break
                    if a.call("ctl.hold", dict(route=r))[1]["out"]: break
                    time.sleep(0.001)
                if f: self.held[r] = (k, f)
                else: a.call("ctl.let", dict(route=r))
        elif n == "let":
            if r not in self.held: n = e["n"] = "nop"
            else:
                k, f = self.held.pop(r); e["k"], e["m"] = k, a.seq + 1
                a.call("ctl.let", dict(route=r))
                z = self.answer(f); f.close()
                e["st"], e["sk"] = z["status"], int(z["span_key"] == KEYJ[k])
                if e["st"] == 0: a.seq += 1
        elif n == "burst":              # several requests sent at once on as many connections (or one)
            fs, sts, oks = [], [], []
            e["ms"] = [a.seq + 1 + i for i in range(len(ks))]
            one = k == 1
            try:
                if one:
                    for x in ks: a.send(a.sock, self.name(r), self.body(r, x), x)
                    a.sock.flush()
                    for x in ks: fs.append((x, a.sock))
                else:
                    for x in ks:
                        f = a.connect(); a.send(f, self.name(r), self.body(r, x), x); f.flush(); fs.append((x, f))
                for x, f in fs:
                    z = json.loads(f.readline() or b'{"status":-2,"span_key":null}')
                    sts.append(z["status"]); oks.append(z["span_key"] == KEYJ[x])
                    if f is not a.sock: f.close()
            except (OSError, ValueError): sts.append(-2)
            e["st"] = sts[0] if len(set(sts)) == 1 else -3
            e["sk"] = int(all(oks))
            if e["st"] == 0: a.seq += len(ks)
        elif n == "release":
            st, d, ok = a.call("ctl.release", dict(route=r, arg=o)); e["st"] = 0 if st == 0 else st
        elif n == "auto":
            st, d, ok = a.call("ctl.auto", dict(route=r, arg=ks)); e["st"] = st
        elif n == "arm":
            st, d, ok = a.call("ctl.arm", dict(route=r, arg=o)); e["st"] = st
        else:
            body = dict(queue_route_key=self.name(r))
            if n in ("inspect", "pop", "repone"): body["span_key"] = KEYJ[k]
            st, d, ok = self.by_cli(n, r, k) if self.w.get("cli") else a.call(self.mroute(r, n), body)
            e["sk"] = int(ok)
            if st != 0: e["st"] = -1 if n in ("inspect", "pop", "repone") and self.strange(r, k) and st != -2 else st
            else:
                q = d.get("queue_data")
                e["msg"] = int(bool(d.get("message")))
                if n == "first10":
                    e["st"] = 0 if isinstance(q, list) else -1
                    e["l"] = [kid(x) for x in q] if isinstance(q, list) else []
                else:
                    e["q"] = info(q, "snd" if snd else "ep")
                    e["st"] = 0 if e["q"] else -1
                rd = d.get("request_data")
                if rd is not None:
                    v = vid(rd)
                    e["d"] = [k if v == (0 if r in self.conf and self.conf[r].get("dto") == "empty" else k) else -1]
        return e

    FLAGS = dict(data="", rpause="pr", runpause="ur", ppause="pp", punpause="up", apause="pa", aunpause="ua", first10="e10", inspect="ins", pop="pop",
                 repone="rp1", repall="rpa", clear="clr")

    def by_cli(self, n, r, k):
        """The same operation, by command line: what the output shows, as an answer."""
        snd = r in self.conf and self.conf[r]["kind"] == "snd"
        f = dict(self.FLAGS, ppause="ps", punpause="us")[n] if snd else self.FLAGS[n]
        st = self.rng.choice(list(ADDR))
        args = ["-st", st, "-sd", ADDR[st], "-rk", self.name(r)] + (["-" + f] if f else []) + (["-sk", str(key(k))] if n in ("inspect", "pop", "repone") else [])
        rc, text = cli.run("bsm" if snd else "bem", args, SCRATCH, real=bool(self.w.get("real")))
        if rc != 0: return -4, None, True
        vs, d = cli.values(text), dict(queue_data=None, request_data=None, message=text.strip().strip("=-").strip())
        for v in vs:
            if isinstance(v, list) or "database_sizes" in v: d["queue_data"] = v
            else: d["request_data"] = v
        if n in ("inspect", "pop", "repone") and d["queue_data"] and d["request_data"] is None and self.conf[r].get("dto") == "empty": d["request_data"] = {}
        return 0, d, True

    def run(self):
        a = self.app; a.seq = 0; self.rng = random.Random(self.w.get("seed", 0))
        tr = [dict(ev="reset", conf={r: dict(kind=c["kind"], maxr=c["maxr"], slow=1 if c.get("wait") else 0,
                                            mw=0 if any(x.get("nomw") for x in self.w["conf"]) else 1) for r, c in self.conf.items()})]
        try:
            if not a.start(): return tr + [dict(ev="dead", why="did not start")]
            a.seq = 0
            tr.append(dict(ev="boot", mis=self.mis(), evs=self.split(a.events()), obs=self.observe()))
            for op in self.w["ops"]:
                if op[0] == "term":
                    if op[2]: time.sleep(op[2] / 1000)
                    how, o = (op[4] + ["", ""])[:2]
                    if how:                   # while the middleware is at work before / after a request
                        a.call("ctl.arm", dict(route=op[1], arg="h" + how)); a.call("ctl.release", dict(route=op[1], arg=o))
                        a.call("ctl.settle", dict(arg=0.001))
                    x = a.kill(SIG[op[3] or "TERM"])
                    for _, f in self.held.values(): f.close()
                    self.held = {}
                    tr.append(dict(ev="term", x=x, r=op[1], how=how, o=o, evs=self.split(a.events())))
                    if x == "hang": self.stop = True; break
                    if not a.start():
                        tr.append(dict(ev="dead", why="did not restart")); break
                    a.seq = (a.inc - 1) * 1000
                    ob = self.observe()
                    tr.append(dict(ev="boot", mis=self.mis(), evs=self.split(a.events()), obs=ob))
                elif op[0] == "kill":
                    a.kill(signal.SIGKILL); break
                else:
                    e = self.do(op)
                    e["obs"] = self.observe(); e["evs"] = self.split(a.events())
                    if op[0] == "burst" and op[2] == 0 and e["st"] == 0:
                        # concurrent requests: their order of acceptance is the order of the last before_push
                        t = e["evs"][op[1]]["toks"]
                        if sorted(x[0] for x in t) == sorted(op[4]): e["ks"], e["ms"] = [x[0] for x in t], [x[1] for x in t]
                    tr.append(e)
                    if e["st"] == -2 or self.stop: break
        finally:
            a.stop()
        return tr

out, trouble = [], 0
for w in drv.PAYLOAD["walks"]:
    x = Run(w)
    out.append(x.run())
    trouble += x.stop
    if trouble >= 3: break
drv.result(dict(traces=out))
