"""Runs command lines of the tools against a server that records requests and answers from a script."""
import drv, json, os, select, socket, sys, uuid
import cli
SCRATCH = drv.SCRATCH
import asyncio, argparse                            # what a fresh tool process would import first
import ekosis.clients, ekosis.sending.sender_base, ekosis.data_transfer_objects.queue_management

NAMES = dict(pr="pause_receiving", pp="pause_processing", ur="unpause_receiving", up="unpause_processing", pa="pause_all", ua="unpause_all",
             ps="pause_sending", us="unpause_sending", e10="error_10", rp1="reprocess_one", rpa="reprocess_all", ins="inspect_request",
             pop="pop_request", clr="clear")

class Server:
    def __init__(self):
        self.uds = os.path.join(SCRATCH, "s.sock")
        self.l = [socket.socket(socket.AF_INET, socket.SOCK_STREAM), socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)]
        self.l[0].bind(("127.0.0.1", 0)); self.l[1].bind(self.uds)
        for s in self.l: s.listen(20); s.setblocking(False)
        self.u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); self.u.bind(("127.0.0.1", 0)); self.u.setblocking(False)
        self.addr = dict(tcp="127.0.0.1:%d" % self.l[0].getsockname()[1], udp="127.0.0.1:%d" % self.u.getsockname()[1], uds=self.uds, bad="127.0.0.1:1")
        self.conns, self.got, self.answers, self.status = {}, [], [], 0

    def reset(self, status, answers):
        for c in list(self.conns): c.close()
        self.conns, self.got, self.answers, self.status = {}, [], answers, status

    def answer(self, line, how):
        r = json.loads(line)
        sk = r["span_key"]
        again = next((g for g in self.got if g["outer"] == sk), None) if how == "udp" else None
        if not again:
            d = r["data"]; arg = next((str(d[k]) for k in ("queue_route_key", "type", "level", "size") if k in d), "?")
            key = d.get("span_key"); key = f"{uuid.UUID(key['trace_id'])}:{key['span_id']}" if key else ""
            self.got.append(dict(outer=sk, route=r["route_key"], arg=arg, sk=key, via=how))
        n = self.got.index(again) if again else len(self.got) - 1
        a = self.answers[min(n, len(self.answers) - 1)] if self.answers else None
        data = a["data"] if a and self.status == 0 else "failed"
        return (json.dumps(dict(span_key=sk, status=self.status, data=data)) + "\n").encode()

    def poll(self, t):
        for s in select.select([self.u] + self.l + list(self.conns), [], [], t)[0]:
            try:
                if s is self.u:
                    b, a = s.recvfrom(65536); s.sendto(self.answer(b, "udp"), a)
                elif s in self.l:
                    c, _ = s.accept(); c.setblocking(True); self.conns[c] = [b"", "tcp" if s is self.l[0] else "uds"]
                else:
                    b = s.recv(65536)
                    if not b: s.close(); del self.conns[s]; continue
                    st = self.conns[s]; st[0] += b
                    while b"\n" in st[0]:
                        line, st[0] = st[0].split(b"\n", 1); s.sendall(self.answer(line, st[1]))
            except OSError:
                if s in self.conns: s.close(); del self.conns[s]

def command(c, addr, rng):
    a, pairs = [], []
    flag = lambda short, long: short if rng.random() < 0.5 else long
    if c["st"] != "": pairs.append([flag("-st", "--server_type"), "carrier" if c["st"] == "bad" else c["st"]])
    sd = dict(ok=addr[c["st"] if c["st"] in addr else "tcp"], noport="127.0.0.1", text="127.0.0.1:port", empty="").get(c["sd"])
    if sd is not None: pairs.append([flag("-sd", "--server_details"), sd])
    if c["rk"]: pairs.append([flag("-rk", "--route_key"), c["rk"]])
    for f in c["flags"]: pairs.append([flag("-" + f, "--" + NAMES[f])])
    if c["sk"]: pairs.append([flag("-sk", "--span_key"), rng.choice(["xyz", "12:34", "not-a-key:0"]) if c["sk"] == "bad" else c["sk"]])
    if c["type"]: pairs.append([flag("-type", "--type"), c["type"]])
    if c["level"]: pairs.append([flag("-l", "--level"), "loud" if c["level"] == "wrong" else c["level"]])
    if c["size"]: pairs.append([flag("-b", "--buff_size"), "many" if c["size"] == "bad" else c["size"]])
    rng.shuffle(pairs)
    return [x for p in pairs for x in p]

import random
srv, out = Server(), []
for k, w in enumerate(drv.PAYLOAD["lines"]):
    c, rng = w["c"], random.Random(w["seed"])
    srv.reset(w["status"], w["ans"])
    args = command(c, srv.addr, rng)
    rc, text = cli.run(c["tool"], args, SCRATCH, real=bool(w.get("real")), idle=srv.poll)
    plain = " ".join(text.split())
    e = dict(ev="line", c=c, rc=rc, status=w["status"], reqs=[{k: v for k, v in g.items() if k != "outer"} for g in srv.got], args=" ".join(args),
             ans=[dict(seen=int(all(" ".join(t.split()) in plain for t in a["texts"])), vals=[cli.canon(v) for v in a["vals"]]) for a in w["ans"]],
             json=[cli.canon(v) for v in cli.values(text)])
    out.append([e])
drv.result(dict(traces=out))
