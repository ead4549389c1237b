"""Part of C02: why the LR machine cannot get stuck or run for ever, on the committed tables."""
import vlib


def certify(chk, binary):
    """Certify.tla on the tables as the parser looks them up"""
    T = vlib.harness(binary, 'tables', ['-'], lines=True)[0]
    if 'act' not in T:
        chk.violation('looking up the tables: %s' % T, T)
        return
    n, nt, act, go = T['n'], T['t'], T['act'], T['go']

    def distinct(rows):
        num, out, of = {}, [], []
        for r in rows:
            k = tuple(r)
            if k not in num:
                num[k] = len(out) + 1
                out.append(r)
            of.append(num[k])
        return out, of
    rows, rowof = distinct(act)
    gos, goof = distinct(go)
    pred = [set() for _ in range(n)]
    for q in range(n):
        for v in act[q]:
            if 0 < v < 32766 and v <= n:
                pred[v - 1].add(q)
        for v in go[q]:
            if 0 <= v < n:
                pred[v].add(q)
    small = lambda v: -32000 < v < 0 and (-v - 1 >= len(T['rules']) or T['rules'][-v - 1][1] <= 1)
    empty = lambda v: -32000 < v < 0 and (-v - 1 >= len(T['rules']) or T['rules'][-v - 1][1] == 0)
    hot = [any(small(v) for v in set(act[q])) for q in range(n)]
    starts = [[q] for q in range(n) if any(empty(v) for v in set(act[q]))]
    starts += [[p, g] for p in range(n) for g in sorted(set(go[p])) if 0 <= g < n and hot[g]]
    base = {'n': n, 't': nt, 'x': T['x'], 'rows': rows, 'rowof': rowof, 'gos': gos, 'goof': goof, 'rules': T['rules'], 'limit': 200,
            'every': 1 if chk.thorough else 8, 'from': chk.seed, 'pred': [], 'starts': []}
    k = 3
    shards = [dict(base, pred=[sorted(s) for s in pred])] + [dict(base, starts=starts[i::k]) for i in range(k)]
    tot, _ = vlib.tlc_shards('Certify', shards, chk.pid + 'cert', workers=2, heap='5g', timeout=2400 if chk.thorough else 500, expect=True)
    chk.add_tlc(tot, 0)
    chk.cov['certified_states'] = n
    chk.cov['abstract_stacks'] = tot.states
    chk.cov['certified_look_aheads'] = 'all' if chk.thorough else 'one in %d' % base['every']
    ok = tot.out.count('No error has been found')
    if not tot.violated and ok < len(shards):
        if 'Assumption' in tot.out and 'is false' in tot.out:
            tot.violated = 'an assumption about the tables is false'
        else:
            raise vlib.ToolError('TLC failed on Certify:\n' + tot.out[-2000:])
    if tot.violated:
        chk.violation('the tables let the parser get stuck or run for ever: %s' % tot.violated, {'tlc': tot.out[-3000:]})
