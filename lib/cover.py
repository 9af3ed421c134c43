"""Turn a TLC state-graph dump into walks that cover it."""
import re, random
from collections import deque

NODE = re.compile(r'^(-?\d+) \[label="((?:[^"\\]|\\.)*)"(?:,tooltip="(?:[^"\\]|\\.)*")?(,style = filled)?(?:,tooltip="(?:[^"\\]|\\.)*")?\];?\s*$')
EDGE = re.compile(r'^(-?\d+) -> (-?\d+)')

def clean(v):
    return " ".join(v.replace('\\"', "").replace("<<", " ").replace(">>", " ").replace(",", " ").replace('\\n', " ").split())

def load(path, var="op"):
    """Graph whose nodes carry the label of the last operation (string variable `var`)."""
    pat = re.compile(r'(?:^|\\n)(?:/\\\\ )?' + var + r' = (.*?)(?:\\n/\\|$)')
    ops, succ, init = {}, {}, []
    with open(path) as f:
        for line in f:
            m = EDGE.match(line)
            if m:
                a, b = m.group(1), m.group(2)
                if a != b:
                    succ.setdefault(a, set()).add(b)
                continue
            m = NODE.match(line)
            if m:
                mm = pat.search(m.group(2))
                ops[m.group(1)] = clean(mm.group(1)) if mm else ""
                if m.group(3):
                    init.append(m.group(1))
    return ops, {k: sorted(v) for k, v in succ.items()}, init

def walks(ops, succ, init, maxlen=120, budget=None, rng=None):
    """Walks from the initial node that visit every node (= every (state, op) pair of the model)."""
    rng = rng or random.Random(0)
    seen, out, total = set(init), [], 0
    allnodes = set(ops)
    # distance-to-unvisited search is done lazily by BFS
    while len(seen) < len(allnodes) and (budget is None or total < budget):
        cur = init[0] if len(init) == 1 else rng.choice(init)
        walk, progress = [], False
        while len(walk) < maxlen:
            nxt = [n for n in succ.get(cur, ()) if n not in seen]
            if nxt:
                cur = rng.choice(nxt); seen.add(cur); walk.append(ops[cur]); progress = True
                continue
            # BFS to the nearest unvisited node
            prev, dq, goal = {cur: None}, deque([cur]), None
            while dq:
                u = dq.popleft()
                for v in succ.get(u, ()):
                    if v not in prev:
                        prev[v] = u
                        if v not in seen:
                            goal = v; break
                        dq.append(v)
                if goal:
                    break
            if goal is None:
                break
            path = []
            while goal != cur:
                path.append(goal); goal = prev[goal]
            path.reverse()
            if len(walk) + len(path) > maxlen and walk:
                break
            for v in path:
                seen.add(v); walk.append(ops[v])
            cur = path[-1]; progress = True
        if not walk or not progress:
            break
        out.append(walk); total += len(walk)
    return out, len(seen), len(allnodes)
