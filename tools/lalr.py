"""Independent LALR(1) construction: LR(0) automaton + DeRemer/Pennello
look-aheads + yacc conflict resolution.  (The repository merges LR(1) item
sets instead.)  Works on the output of gramy.parse_yacc."""
import sys
from collections import defaultdict, deque

END = '$end'


def normalise(g):
    """number symbols; rule 0 is  $accept -> start $end"""
    nts, seen = [], set()
    for r in g['rules']:
        if r['lhs'] not in seen:
            seen.add(r['lhs'])
            nts.append(r['lhs'])
    terms, tseen = [], set()
    for r in g['rules']:
        for s in r['rhs']:
            if s not in seen and s not in tseen:
                tseen.add(s)
                terms.append(s)
    rules = [('$accept', [g['start'], END], None)]
    rules += [(r['lhs'], r['rhs'], r['prec']) for r in g['rules']]
    return nts, terms + [END], rules


def digraph(nodes, rel, init):
    """F(x) = init(x) | U { F(y) : x rel y }  (iterative Tarjan)"""
    F = list(init)
    N = [0] * nodes
    stack = []
    INF = 1 << 60
    for root in range(nodes):
        if N[root]:
            continue
        work = [(root, 0)]
        stack.append(root)
        N[root] = len(stack)
        depth = {root: len(stack)}
        while work:
            x, k = work[-1]
            ys = rel[x]
            if k < len(ys):
                work[-1] = (x, k + 1)
                y = ys[k]
                if N[y] == 0:
                    stack.append(y)
                    N[y] = len(stack)
                    depth[y] = len(stack)
                    work.append((y, 0))
                else:
                    if N[y] < N[x]:
                        N[x] = N[y]
                    F[x] |= F[y]
            else:
                work.pop()
                if N[x] == depth[x]:
                    while True:
                        t = stack.pop()
                        N[t] = INF
                        if t == x:
                            break
                        F[t] = F[x]
                if work:
                    p = work[-1][0]
                    if N[x] < N[p]:
                        N[p] = N[x]
                    F[p] |= F[x]
    return F


def build(g):
    nts, terms, rules = normalise(g)
    ntset = set(nts) | {'$accept'}
    by_lhs = defaultdict(list)
    for i, (l, _, _) in enumerate(rules):
        by_lhs[l].append(i)
    rhs = [tuple(r[1]) for r in rules]
    # nullable
    nullable = set()
    ch = True
    while ch:
        ch = False
        for i, (l, r, _) in enumerate(rules):
            if l not in nullable and all(s in nullable for s in r):
                nullable.add(l)
                ch = True
    # leftmost closure of non-terminals
    first_nt = {a: {a} for a in ntset}
    direct = {a: {rhs[i][0] for i in by_lhs[a] if rhs[i] and rhs[i][0] in ntset} for a in ntset}
    ch = True
    while ch:
        ch = False
        for a in ntset:
            n = len(first_nt[a])
            for b in direct[a]:
                first_nt[a] |= first_nt[b]
            if len(first_nt[a]) != n:
                ch = True
    # LR(0)
    start_kernel = ((0, 0),)
    index = {start_kernel: 0}
    kernels = [start_kernel]
    trans = []
    closure_rules = []
    q = 0
    while q < len(kernels):
        k = kernels[q]
        q += 1
        nt = set()
        for (r, d) in k:
            if d < len(rhs[r]) and rhs[r][d] in ntset:
                nt |= first_nt[rhs[r][d]]
        groups = defaultdict(list)
        for (r, d) in k:
            if d < len(rhs[r]):
                groups[rhs[r][d]].append((r, d + 1))
        crs = [r for a in nt for r in by_lhs[a]]
        closure_rules.append(crs)
        for r in crs:
            if rhs[r]:
                groups[rhs[r][0]].append((r, 1))
        t = {}
        for s, items in groups.items():
            if s == END:
                continue
            kk = tuple(sorted(set(items)))
            j = index.get(kk)
            if j is None:
                j = index[kk] = len(kernels)
                kernels.append(kk)
            t[s] = j
        trans.append(t)
    n = len(kernels)
    tid = {t: i for i, t in enumerate(terms)}
    # nonterminal transitions
    nttr, ntidx = [], {}
    for p in range(n):
        for s in trans[p]:
            if s in ntset:
                ntidx[(p, s)] = len(nttr)
                nttr.append((p, s))
    DR, reads = [], []
    for (p, a) in nttr:
        r = trans[p][a]
        m = 0
        rr = []
        for s in trans[r]:
            if s in ntset:
                if s in nullable:
                    rr.append(ntidx[(r, s)])
            else:
                m |= 1 << tid[s]
        if p == 0 and a == g['start']:
            m |= 1 << tid[END]
        DR.append(m)
        reads.append(rr)
    Read = digraph(len(nttr), reads, DR)
    includes = [[] for _ in nttr]
    lookback = defaultdict(list)
    for x, (p, a) in enumerate(nttr):
        for ri in by_lhs[a]:
            r = rhs[ri]
            st = p
            path = [p]
            for s in r:
                st = trans[st][s]
                path.append(st)
            lookback[(st, ri)].append(x)
            k = len(r) - 1
            while k >= 0:
                s = r[k]
                if s in ntset:
                    includes[ntidx[(path[k], s)]].append(x)
                    if s not in nullable:
                        break
                else:
                    break
                k -= 1
    includes = [sorted(set(v)) for v in includes]
    Follow = digraph(len(nttr), includes, Read)
    LA = [dict() for _ in range(n)]
    for (st, ri), xs in lookback.items():
        m = 0
        for x in xs:
            m |= Follow[x]
        LA[st][ri] = m
    # conflict resolution
    prec = g['prec']

    def rule_prec(ri):
        l, r, p = rules[ri]
        if p is not None:
            return prec.get(p)
        ts = [s for s in r if s not in ntset]
        return prec.get(ts[-1]) if ts else None
    rp = [rule_prec(i) for i in range(len(rules))]
    actions = []
    conflicts = []
    for st in range(n):
        row = {}
        shift = {tid[s]: j for s, j in trans[st].items() if s not in ntset}
        errs = set()
        # shift / reduce, every reduction compared with the shift (bison)
        redset = {ri: m for ri, m in LA[st].items()}
        for ri in sorted(redset):
            m = redset[ri]
            p = rp[ri]
            if p is None:
                continue
            for t in list(shift):
                if (m >> t) & 1:
                    tp = prec.get(terms[t])
                    if tp is None:
                        continue
                    if tp[0] < p[0]:
                        del shift[t]
                    elif tp[0] > p[0]:
                        m &= ~(1 << t)
                    else:
                        if tp[1] == 'right':
                            m &= ~(1 << t)
                        elif tp[1] == 'left':
                            del shift[t]
                        elif tp[1] == 'nonassoc':
                            m &= ~(1 << t)
                            del shift[t]
                            errs.add(t)
            redset[ri] = m
        for t, j in shift.items():
            row[t] = ('s', j)
        for ri in sorted(redset):
            m = redset[ri]
            t = 0
            while m:
                low = m & -m
                t = low.bit_length() - 1
                m ^= low
                if t in row:
                    conflicts.append((st, terms[t], row[t], ri))
                elif t in errs:
                    pass
                else:
                    row[t] = ('r', ri)
        if (0, 1) in kernels[st]:
            e = tid[END]
            if e in row:
                conflicts.append((st, END, row[e], 'accept'))
            row[e] = ('a', 0)
        actions.append(row)
    gotos = [{s: j for s, j in t.items() if s in ntset} for t in trans]
    return dict(nts=nts, terms=terms, rules=rules, kernels=kernels, trans=trans,
                actions=actions, gotos=gotos, conflicts=conflicts, LA=LA, nullable=nullable)


if __name__ == '__main__':
    import time
    from gramy import parse_yacc
    t = time.time()
    g = parse_yacc(open(sys.argv[1]).read())
    print(len(g['rules']), 'rules', len(g['tokens']), 'tokens', g['start'])
    a = build(g)
    print(len(a['kernels']), 'states', len(a['terms']), 'terms', len(a['nts']), 'nts',
          sum(map(len, a['actions'])), 'actions', sum(map(len, a['gotos'])), 'gotos',
          len(a['conflicts']), 'conflicts', time.time() - t)
