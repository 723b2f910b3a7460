"""Walks over a labelled transition graph printed by TLC (EDGE lines) that take every transition at least once."""
import collections, json, random


def edges_of(out):
    es = []
    for line in out.splitlines():
        i = line.find('"EDGE ')
        if i < 0:
            continue
        d = json.loads(json.loads(line[i:])[5:])
        es.append((d["s"], d["t"], d["o"]))
    return es


def walks(edges, init, max_len=150, seed=1, limit=None):
    rnd = random.Random(seed)
    succ = collections.defaultdict(dict)
    for s, t, o in edges:
        succ[s][json.dumps(o)] = t
    todo = {s: set(v) for s, v in succ.items()}
    left = sum(len(v) for v in todo.values())
    total = left
    out = []

    def path_to_todo(s):
        seen, q = {s: None}, collections.deque([s])
        while q:
            x = q.popleft()
            if todo.get(x):
                p = []
                while seen[x] is not None:
                    y, o = seen[x]
                    p.append((o, x))
                    x = y
                return p[::-1]
            for o, t in succ[x].items() if x in succ else ():
                if t not in seen:
                    seen[t] = (x, o)
                    q.append(t)
        return None

    while left and (limit is None or len(out) < limit):
        s, w, fresh = init, [], 0
        while len(w) < max_len:
            if todo.get(s):
                # prefer transitions that lead on
                os_ = sorted(todo[s])
                good = [o for o in os_ if todo.get(succ[s][o]) and succ[s][o] != s] or os_
                o = rnd.choice(good)
                todo[s].discard(o)
                left -= 1
                fresh += 1
                w.append(json.loads(o))
                s = succ[s][o]
                continue
            p = path_to_todo(s)
            if p is None:
                break
            if len(w) + len(p) > max_len and w:
                break
            for o, t in p:
                w.append(json.loads(o))
                s = t
        if not fresh:
            break
        out.append(w)
    return out, total, total - left
