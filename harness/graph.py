"""Edge-covering walks over a transition graph emitted by TLC."""
import random, json
from collections import defaultdict, deque

def cover(edges, seed=1, maxlen=60, limit=None, init=None, shuffle=False):
    """edges: dicts a, b (node ids), e (input), optional k (abstract source).  Returns input sequences, each
    starting in the initial node, such that every (abstract source, input) pair is taken at least once."""
    rnd = random.Random(seed)
    out = defaultdict(list)
    for x in edges:
        out[x['a']].append((json.dumps(x['e'], sort_keys=True), x['b'], x.get('k', x['a'])))
    if init is None:
        init = edges[0]['a']
    todo = set()
    for a in out:
        rnd.shuffle(out[a])
        for e, b, k in out[a]: todo.add((k, e))
    total = len(todo)
    parent = {init: None}
    dq = deque([init]); order = [init]
    while dq:
        a = dq.popleft()
        for e, b, k in out[a]:
            if b not in parent:
                parent[b] = (a, e); dq.append(b); order.append(b)
    def path_to(n):
        p = []
        while parent[n] is not None:
            a, e = parent[n]; p.append(e); n = a
        return p[::-1]
    walks = []
    ptr = 0
    pend = {a: [x for x in out[a]] for a in out}
    def unc(a):
        l = pend.get(a)
        while l:
            e, b, k = l[-1]
            if (k, e) in todo: return l[-1]
            l.pop()
        return None
    rnd_order = order
    if shuffle: rnd.shuffle(rnd_order)
    while todo and ptr < len(rnd_order):
        n = rnd_order[ptr]
        if n not in out or unc(n) is None:
            ptr += 1; continue
        p = path_to(n)
        cur = n
        while len(p) < maxlen:
            x = unc(cur)
            if x is None:
                # look a little ahead
                seen = {cur: None}; q = deque([cur]); hit = None
                while q and len(seen) < 60:
                    a = q.popleft()
                    if a in out and unc(a) is not None and a != cur: hit = a; break
                    for e, b, k in out.get(a, ()):
                        if b not in seen: seen[b] = (a, e); q.append(b)
                if hit is None: break
                tail = []
                z = hit
                while seen[z] is not None:
                    a, e = seen[z]; tail.append(e); z = a
                p.extend(tail[::-1]); cur = hit
                continue
            e, b, k = x
            todo.discard((k, e))
            p.append(e); cur = b
        # mark everything on the way as covered
        z = init
        walks.append([json.loads(e) for e in p])
        if limit and len(walks) >= limit: break
    return walks, total, total - len(todo)
