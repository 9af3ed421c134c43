"""Real span keys, through every form they take."""
import drv, json, copy, pickle, random
from drv import PAYLOAD
from uuid import UUID
from ekosis.data_transfer_objects import SpanKey, SpanId, RequestDTO, ResponseDTO
try: from ekosis.data_transfer_objects import BufferedEndpointResponseDTO as Ack
except ImportError: Ack = None
from ekosis.queues.pending_queue import PendingEntry

def uuid_text(t): h = f"{t:032x}"; return f"{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:]}"
class Forms:
    """enc: SpanKey -> form; canon: what the form must be for the pair (t, s), written without the library; dec: form -> SpanKey"""
    obj   = (lambda k: k, None, lambda x: x)
    bytes = (lambda k: k.bytes, lambda t, s: t.to_bytes(16, "big") + s.to_bytes(8, "big"), SpanKey.from_bytes)
    key   = (lambda k: k.key(), lambda t, s: t.to_bytes(16, "big") + s.to_bytes(8, "big"), SpanKey.from_bytes)
    str   = (lambda k: str(k), lambda t, s: f"{uuid_text(t)}:{s:016x}", SpanKey.from_hex)
    json  = (lambda k: json.loads(k.model_dump_json()), lambda t, s: dict(trace_id=uuid_text(t), span_id=f"{s:016x}"), lambda x: SpanKey(**x))
    text  = (lambda k: k.model_dump_json(), None, SpanKey.model_validate_json)
    dump  = (lambda k: k.model_dump(), None, lambda x: SpanKey(**x))
    upper = (lambda k: str(k).upper(), lambda t, s: f"{uuid_text(t)}:{s:016x}".upper(), SpanKey.from_hex)
    req   = (lambda k: json.loads(RequestDTO(route_key="r", span_key=k, data={}).model_dump_json()),
             lambda t, s: dict(route_key="r", span_key=dict(trace_id=uuid_text(t), span_id=f"{s:016x}"), data={}), lambda x: RequestDTO(**x).span_key)
    rsp   = (lambda k: json.loads(ResponseDTO(span_key=k, status=0, data=1).model_dump_json()),
             lambda t, s: dict(span_key=dict(trace_id=uuid_text(t), span_id=f"{s:016x}"), status=0, data=1), lambda x: ResponseDTO(**x).span_key)
    entry = (lambda k: PendingEntry(span_key=k, data={}, retries=0).model_dump_json(), None, lambda x: PendingEntry.model_validate_json(x).span_key)
    ids   = (lambda k: (k.trace_id.int, k.span_id.value), lambda t, s: (t, s), lambda x: SpanKey(trace_id=UUID(int=x[0]), span_id=SpanId(int_=x[1])))
    sbyt  = (lambda k: (k.trace_id.bytes, k.span_id.bytes), lambda t, s: (t.to_bytes(16, "big"), s.to_bytes(8, "big")), lambda x: SpanKey(trace_id=UUID(bytes=x[0]), span_id=SpanId(bytes_=x[1])))
    shex  = (lambda k: (k.trace_id.hex, k.span_id.hex), lambda t, s: (f"{t:032x}", f"{s:016x}"), lambda x: SpanKey(trace_id=UUID(x[0]), span_id=SpanId(hex_=x[1])))
    copy  = (lambda k: copy.deepcopy(k), None, lambda x: x)
    mcopy = (lambda k: k.model_copy(), None, lambda x: x)
    pick  = (lambda k: pickle.dumps(k), None, pickle.loads)
NAMES = sorted(n for n in vars(Forms) if not n.startswith("_"))

def bads(rng):
    h = f"{rng.getrandbits(64):016x}"; t = uuid_text(rng.getrandbits(128))
    texts = dict(short=h[:15], long=h + "0", none="", letter="g" + h[1:], minus="-" + h[1:], plus="+" + h[1:], under=h[:7] + "_" + h[8:], prefix="0x" + h[2:], space=" " + h[1:], tail=h[:15] + "\n",
                 digits=chr(0xff11) + h[1:], dash=h[:8] + "-" + h[9:], nul=h[:15] + "\0")
    for n, x in texts.items():
        yield n, lambda x=x: SpanId(hex_=x)
        yield n + ".wire", lambda x=x: RequestDTO(route_key="r", span_key=dict(trace_id=t, span_id=x), data={})
        yield n + ".str", lambda x=x: SpanKey.from_hex(f"{t}:{x}")
    for n, x in dict(b7=b"1234567", b9=b"123456789", b0=b"").items(): yield n, lambda x=x: SpanId(bytes_=x)
    for n, x in dict(b23=b"x" * 23, b25=b"x" * 25, b0k=b"", b16=b"x" * 16).items(): yield n, lambda x=x: SpanKey.from_bytes(x)
    for n, x in dict(neg=-1, big=1 << 64).items():
        yield n, lambda x=x: SpanId(int_=x)
        yield n + ".wire", lambda x=x: SpanKey(trace_id=t, span_id=x)
    yield "nothing", lambda: SpanId()
    yield "two", lambda: SpanId(int_=1, hex_=h)
    for n, x in dict(f=1.5, n=None, l=[h], d=dict(hex=h)).items(): yield "type." + n, lambda x=x: SpanKey(trace_id=t, span_id=x)
    for n, x in dict(short=t[:-1], long=t + "0", none="", junk="z" + t[1:]).items(): yield "trace." + n, lambda x=x: SpanKey.from_hex(f"{x}:{h}")
    yield "nocolon", lambda: SpanKey.from_hex(t.replace("-", "") + h)

def run(w):
    P = {(a, b): (w["traces"][a - 1], w["spans"][b - 1]) for a in range(1, len(w["traces"]) + 1) for b in range(1, len(w["spans"]) + 1)}
    back = {v: k for k, v in P.items()}
    mk = lambda a, b: SpanKey(trace_id=UUID(int=P[a, b][0]), span_id=SpanId(int_=P[a, b][1]))
    tr, cur, frm, store, rng, pair = [dict(ev="reset")], None, "obj", {}, random.Random(w["seed"]), None
    dec = lambda: getattr(Forms, frm)[2](cur)
    for n, a, b, f in w["ops"]:
        e = dict(ev=n, a=a, b=b, f=f)
        try:
            if n == "new": cur, frm, pair = mk(a, b), "obj", (a, b)
            elif n == "to":
                frm, f = w["forms"][f], None
                was = e["f"]; e["f"] = frm
                k = getattr(Forms, w["_f"])[2](cur) if w.get("_f") else cur
                cur = getattr(Forms, frm)[0](k)
                c = getattr(Forms, frm)[1]
                e["canon"] = 1 if c is None or cur == c(*P[pair]) else 0
                d = dec(); got = back.get((d.trace_id.int, d.span_id.value), (0, 0)) if type(d) is SpanKey else (0, 0)
                e["ga"], e["gb"] = got
            elif n == "put": store[dec()] = 1; e["got"] = len(store)
            elif n == "has": e["got"] = int(mk(a, b) in store)
            elif n == "eq":
                k, o = dec(), mk(a, b)
                e["obj"] = int(k == o and o == k and hash(k) == hash(o)) if k == o else int(o == k)
                ts = f"{uuid_text(P[a, b][0])}:{P[a, b][1]:016x}"; ts = {k == x for x in (ts, ts.upper(), ts.replace("-", ""))}
                e["txt"] = int(ts == {True}) if len(ts) == 1 else -1; e["ne"] = int(k != o)
                if k.span_id == o.span_id and (hash(k.span_id) != hash(o.span_id) or str(k.span_id) != str(o.span_id)): e["obj"] = -1
                if (k.span_id == o.span_id) != (P[pair][1] == P[a, b][1]) or (k.trace_id == o.trace_id) != (P[pair][0] == P[a, b][0]): e["obj"] = -1
        except Exception as x:
            e.update(ga=0, gb=0, canon=0, got=-1, obj=-1, txt=-1, ne=-1, err=f"{type(x).__name__}: {x}"[:200])
        w["_f"] = frm
        tr.append(e)
    for how, f in bads(rng):
        try: f(); got = 0
        except Exception: got = 1
        tr.append(dict(ev="bad", how=how, got=got))
    N = 300
    ks = [SpanKey.generate() for _ in range(N)]
    tr.append(dict(ev="gen", n=N, got=min(len({k.bytes for k in ks}), len(set(ks)), len({k.span_id for k in ks}), len({k.trace_id for k in ks}))))
    return tr
if PAYLOAD.get("names"): drv.result(dict(names=NAMES))
else: drv.result(dict(traces=[run(w) for w in PAYLOAD["walks"]]))
