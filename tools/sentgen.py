"""Behaviours of the parser machine: sentences that steer it through every state, transition and
rule of the automaton, and random ones."""
import heapq, random
from collections import defaultdict, deque
from spec import Spec, LA_BASE, UNREAL

TEXTS = {
    'IDENT': ['a', 'Tab1', '_x', '"q I"', 'é', 'b$1', '"sel""ect"', 'U&"d!0"'],
    'SCONST': ["'s'", "''", "'it''s'", "e'\\n'", '$$b$$', "$t$a'b$t$", "U&'x'", "'a\nb'"],
    'BCONST': ["b'01'"], 'XCONST': ["x'1F'", "X''"],
    'ICONST': ['1', '0', '42', '2147483647', '0x1f', '1_0'],
    'FCONST': ['1.5', '.5', '1e10', '2147483648', '1.', '3.e-1'],
    'PARAM': ['$1', '$23'],
    'Op': ['&&', '||', '~', '!', '@>', '#-', '<->', '->'],
    'TYPECAST': ['::'], 'DOT_DOT': ['..'], 'COLON_EQUALS': [':='], 'EQUALS_GREATER': ['=>'],
    'LESS_EQUALS': ['<='], 'GREATER_EQUALS': ['>='], 'NOT_EQUALS': ['<>', '!='],
}
BIG = 10 ** 9


class Gen:
    def __init__(self, spec):
        self.s = spec
        a = spec.a
        self.rhs = [tuple(r[1]) for r in spec.rules]
        self.lhs = [r[0] for r in spec.rules]
        self.by = defaultdict(list)
        for i, l in enumerate(self.lhs):
            if i:
                self.by[l].append(i)
        self.min_rule, self.min_len = {}, {}
        self._min()
        self._paths()

    def tcost(self, t):
        return BIG if t in UNREAL else 1

    def _min(self):
        cost = {n: BIG for n in self.s.nts}
        ch = True
        while ch:
            ch = False
            for i in range(1, len(self.rhs)):
                c = sum(cost[x] if x in cost else self.tcost(x) for x in self.rhs[i])
                if c < cost[self.lhs[i]]:
                    cost[self.lhs[i]] = c
                    self.min_rule[self.lhs[i]] = i
                    ch = True
        self.min_len = cost
        self._y = {}
        self.best = {}

    def rest(self, r, d):
        return sum(self.length(x) for x in self.rhs[r][d:])

    def length(self, x):
        return self.min_len[x] if x in self.min_len else self.tcost(x)

    def min_yield(self, x):
        if x not in self.min_len:
            return (x,)
        y = self._y.get(x)
        if y is None:
            y = self._y[x] = tuple(t for s in self.rhs[self.min_rule[x]] for t in self.min_yield(s))
        return y

    def _paths(self):
        """a cheapest path of symbols to every state"""
        tr = self.s.a['trans']
        dist = {0: 0}
        self.via = {0: None}
        pq = [(0, 0)]
        while pq:
            d, q = heapq.heappop(pq)
            if d > dist[q]:
                continue
            for x, j in tr[q].items():
                c = d + self.length(x) + 0.01
                if c < dist.get(j, BIG):
                    dist[j] = c
                    self.via[j] = (q, x)
                    heapq.heappush(pq, (c, j))
        self.dist = dist

    def path(self, q):
        p = []
        while self.via[q] is not None:
            q, x = self.via[q]
            p.append(x)
        return p[::-1]

    def stack_of(self, symbols):
        st = [0]
        for x in symbols:
            st.append(self.s.a['trans'][st[-1]][x])
        return st

    def yield_of(self, symbols):
        return [t for x in symbols for t in self.min_yield(x)]

    def complete(self, stack, rng=None, first=None):
        """terminals that bring the stack to the end of a sentence (a guess: precedence may
        decide otherwise).  `first`: an item of the top state to continue with."""
        a = self.s.a
        st = list(stack)
        out = []
        steps = 0
        while True:
            steps += 1
            if steps > 400:
                return None
            ker = a['kernels'][st[-1]]
            best = None
            if first is not None:
                best, first = first, None
            else:
                m = self.best.get(st[-1])
                if m is None:
                    m = self.best[st[-1]] = min((self.rest(r, d), r, d) for (r, d) in ker)
                if m[0] >= BIG:
                    return None
                if rng is not None and steps < 12 and rng.random() < .3:
                    m = rng.choice([c for c in ((self.rest(r, d), r, d) for (r, d) in ker) if c[0] < BIG])
                best = m[1:]
            r, d = best
            if r == 0:
                if st[-1] != 0:
                    return out
                # at the start: nothing consumed yet
                d = 0
            for x in self.rhs[r][d:]:
                if x == '$end':
                    return out
                out += self.min_yield(x)
                st.append(a['trans'][st[-1]][x])
            if r == 0:
                return out
            n = len(self.rhs[r])
            if n:
                del st[-n:]
            st.append(a['trans'][st[-1]][self.lhs[r]])

    def random_yield(self, x, rng, budget):
        """random derivation of a symbol"""
        if x not in self.min_len:
            return [x]
        rs = self.by[x]
        if budget <= 0:
            return list(self.min_yield(x))
        r = rng.choice(rs)
        if sum(self.length(y) for y in self.rhs[r]) >= BIG:
            return list(self.min_yield(x))
        n = max(1, len(self.rhs[r]))
        out = []
        for y in self.rhs[r]:
            out += self.random_yield(y, rng, (budget - 1) * (0.9 if n == 1 else 1.6 / n))
        return out

    # ---------------- covering sentences ----------------
    def cover(self, terminals=False):
        """Sentences (lists of terminal names) covering every state, every transition and every
        (state, rule) reduction: for every state and every item of its kernel, the access string
        followed by a completion through that item, and by every symbol (non-terminals only unless
        `terminals`) it can be followed by; every rule in some context."""
        a = self.s.a
        prefix = {q: (self.yield_of(self.path(q)), self.stack_of(self.path(q))) for q in self.dist}
        seen = set()
        res = []

        def add(ts):
            if ts is None:
                return
            k = tuple(ts)
            if k not in seen:
                seen.add(k)
                res.append(list(k))
        for q in range(len(a['kernels'])):
            if self.dist.get(q, BIG) >= BIG:
                continue
            pre, st = prefix[q]
            for it in a['kernels'][q]:
                c = self.complete(st, first=it)
                add(None if c is None else pre + c)
            # every transition out of q
            for x, j in a['trans'][q].items():
                if self.length(x) >= BIG or (x not in self.min_len and not terminals):
                    continue
                c = self.complete(st + [j])
                add(None if c is None else pre + list(self.min_yield(x)) + c)
        # every rule, in the context of a state where it can start
        done = set()
        for q in range(len(a['kernels'])):
            if self.dist.get(q, BIG) >= BIG:
                continue
            for x, j in a['trans'][q].items():
                if x in self.min_len:
                    for r in self.by[x]:
                        if r in done or sum(self.length(y) for y in self.rhs[r]) >= BIG:
                            continue
                        done.add(r)
                        c = self.complete(prefix[q][1] + [j])
                        if c is not None:
                            add(prefix[q][0] + [t for y in self.rhs[r] for t in self.min_yield(y)] + c)
        return res


class Render:
    """texts for terminals"""

    def __init__(self, spec):
        self.s = spec

    def text(self, t, rng=None, nxt=None):
        if t in LA_BASE:
            t = LA_BASE[t][0]
        if t.startswith("'"):
            return t[1]
        if t in TEXTS:
            return TEXTS[t][0] if rng is None else rng.choice(TEXTS[t])
        w = self.s.word_of[t]
        if rng is None:
            return w
        k = rng.random()
        if k < .5:
            return w
        if k < .75:
            return w.upper()
        return ''.join(c.upper() if rng.random() < .5 else c for c in w)

    def ids(self, names):
        """scanned symbol numbers (before merging) of a list of terminals"""
        return [self.s.id[LA_BASE[t][0] if t in LA_BASE else t] for t in names]
