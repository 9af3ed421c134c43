"""Histories of cache operations on the real LRUCache."""
import drv
from drv import PAYLOAD
from ekosis.cacheing import LRUCache

KEYF = dict(i=lambda k: k, s=lambda k: f"k{k}", t=lambda k: (k, "x"))
BACK = dict(i=lambda k: k if isinstance(k, int) else -9, s=lambda k: int(k[1:]) if isinstance(k, str) else -9, t=lambda k: k[0] if isinstance(k, tuple) else -9)
MISS = object()
def one(c, o, k, v, kt):
    K, U = KEYF[kt], BACK[kt]
    V = lambda x: x if isinstance(x, int) else -8
    if o == "put": c[K(k)] = v; return []
    if o == "get": r = c.get(K(k), MISS); return [] if r is MISS else [V(r)]
    if o == "item":
        try: return [V(c[K(k)])]
        except KeyError: return []
    if o == "peek": r = c.peek(K(k), MISS); return [] if r is MISS else [V(r)]
    if o == "in": return [int(K(k) in c)]
    if o == "popi": r = c.pop_item(K(k), MISS); return [] if r is MISS else [V(r)]
    if o == "del": del c[K(k)]; return []
    if o == "pop": r = c.pop(); return [] if r is None else [U(r[0]), V(r[1])]
    if o == "clear": c.clear(); return []
    if o == "len": return [len(c)]
    if o == "keys": return [U(x) for x in c.keys()]
    if o == "iter": return [U(x) for x in c]
    if o == "values": return [V(x) for x in c.values()]
    if o == "items": return [[U(x), V(y)] for x, y in c.items()]
    if o == "touch":
        out = []
        for x in c.keys(): out.append(U(x)); c.get(x)
        return out
out = []
for h in PAYLOAD["hist"]:
    c = LRUCache(h["m"]); tr = [dict(ev="reset", m=h["m"])]
    for o, k, v in h["ops"]:
        x, r = "", []
        try: r = one(c, o, k, v, h["kt"])
        except Exception as e: x = f"{type(e).__name__}: {e}"
        tr.append(dict(ev="op", o=o, k=k, v=v, r=r, x=x))
        if x: break
    out.append(tr)
drv.result(dict(traces=out))
