"""Edge-covering walks over the transition graph TLC emitted."""
import json
from collections import defaultdict, deque


def key(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Graph:
    def __init__(self, inits, edges):
        self.ids = {}
        self.out = defaultdict(list)      # sid -> [(actkey, act, obs, tid)]
        self.inits = sorted({self.sid(s) for s in inits})
        seen = set()
        for e in edges:
            k = (self.sid(e["s"]), key(e["a"]), key(e["o"]), self.sid(e["t"]))
            if k in seen:
                continue
            seen.add(k)
            self.out[k[0]].append((k[1], e["a"], e["o"], k[3]))
        self.nedges = len(seen)
        for s in self.out:
            self.out[s].sort(key=lambda x: (x[0], x[3]))

    def sid(self, s):
        k = key(s)
        if k not in self.ids:
            self.ids[k] = len(self.ids)
        return self.ids[k]

    def covering_walks(self, rng, max_len=40, max_steps=None):
        """Walks from initial states such that every (state, act) pair is taken at least once
        (up to max_steps in total; the order is shuffled by rng so that a cap samples)."""
        todo = {s: [i for i in range(len(v))] for s, v in self.out.items()}
        for v in todo.values():
            rng.shuffle(v)
        # one representative per (state, act): nondeterministic alternatives share an act
        for s, v in todo.items():
            seen, keep = set(), []
            for i in v:
                if self.out[s][i][0] not in seen:
                    seen.add(self.out[s][i][0])
                    keep.append(i)
            todo[s] = keep
        remaining = sum(len(v) for v in todo.values())
        total = remaining
        walks, steps = [], 0
        # shortest paths from the initial states
        while remaining and (max_steps is None or steps < max_steps):
            cur = rng.choice(self.inits)
            walk = [(None, None, None, cur)]
            while len(walk) - 1 < max_len:
                if todo.get(cur):
                    i = todo[cur].pop()
                    remaining -= 1
                else:
                    path = self._nearest(cur, todo, max_len - (len(walk) - 1))
                    if path is None:
                        break
                    for i in path:
                        walk.append(self.out[cur][i]); cur = self.out[cur][i][3]
                    continue
                walk.append(self.out[cur][i])
                cur = self.out[cur][i][3]
            if len(walk) == 1:
                # unreachable within max_len from this init
                if len(self.inits) == 1 or all(self._nearest(s, todo, max_len) is None for s in self.inits):
                    max_len *= 2
                    if max_len > 4000:
                        break
                continue
            walks.append(walk)
            steps += len(walk) - 1
        return walks, total - remaining, total

    def _nearest(self, src, todo, limit):
        if limit <= 0:
            return None
        q = deque([src]); prev = {src: None}; depth = {src: 0}
        while q:
            s = q.popleft()
            if s != src and todo.get(s):
                path = []
                while prev[s] is not None:
                    p, i = prev[s]
                    path.append(i); s = p
                return path[::-1]
            if depth[s] >= limit - 1:
                continue
            for i, (_, _, _, t) in enumerate(self.out.get(s, ())):
                if t not in prev:
                    prev[t] = (s, i); depth[t] = depth[s] + 1
                    q.append(t)
        return None
