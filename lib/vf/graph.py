"""State graphs printed by TLC and walks through them."""

import collections
import json

from . import tlc as T


def load(module, cfg, timeout=600):
    """Run TLC and return (states, edges, distinct, generated): states maps the
    key of a state to its printed record, edges is a list of records."""
    rc, out = T.tlc(module, cfg + ".cfg", {}, 1, timeout)
    if rc != 0 or "No error has been found" not in out:
        raise T.TlcError("model %s failed:\n%s" % (cfg, out[-3000:]))
    states, edges = {}, []
    for line in out.split("\n"):
        if line.startswith('"{'):
            r = json.loads(json.loads(line))
            r["s"] = json.dumps(r["s"])
            if r["t"] == "S":
                states[r["s"]] = r
            else:
                r["d"] = json.dumps(r["d"])
                edges.append(r)
    d, g = T.counts(out)
    assert all(e["s"] in states and e["d"] in states for e in edges) and len(edges) >= d - 1
    return states, edges, d, g


def walks(edges, init, rng, length=400, limit=None):
    """Walks from the initial state that together take every transition (or as
    many as fit into limit steps)."""
    out = collections.defaultdict(list)
    for e in edges:
        out[e["s"]].append(e)
    todo = {s: list(es) for s, es in out.items()}
    for es in todo.values():
        rng.shuffle(es)
    left = len(edges)
    res = []
    steps = 0
    while left > 0 and (limit is None or steps < limit):
        walk, s = [], init
        while len(walk) < length and left > 0:
            if todo.get(s):
                e = todo[s].pop()
                left -= 1
                walk.append(e)
                s = e["d"]
                continue
            # nearest state with a transition to take
            prev = {s: None}
            queue = collections.deque([s])
            goal = None
            while queue:
                x = queue.popleft()
                if todo.get(x):
                    goal = x
                    break
                es = out[x]
                for e in rng.sample(es, len(es)) if len(es) < 50 else es:
                    if e["d"] not in prev:
                        prev[e["d"]] = e
                        queue.append(e["d"])
            if goal is None:
                break
            path = []
            while prev[goal] is not None:
                path.append(prev[goal])
                goal = prev[goal]["s"]
            walk += reversed(path)
            s = walk[-1]["d"]
        if not walk:
            break
        res.append(walk)
        steps += len(walk)
    return res, len(edges) - left
