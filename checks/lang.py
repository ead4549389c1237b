"""C07 and C09: the accepted language and the position of syntax errors; the whole pipeline."""
import random, os, json
import vlib, ptrace, scale, total
from pool import Suite
from sentgen import BIG
from spec import LA_BASE, UNREAL


def pipeline(chk, inputs, mode, suite=None, name='pipe'):
    """arbitrary inputs, from bytes to outcome"""
    su = suite or Suite(chk)
    return su.validate([(i, None) for i in inputs], mode, name)


def alternatives(su):
    """every terminal the scanner can produce, with a text; look-ahead keywords with a follower"""
    alts = []
    for t in su.s.terms:
        if t in UNREAL:
            continue
        if t == '$end':
            alts.append(('$end', '', [[su.s.end, 0, 0]]))
        elif t in LA_BASE:
            base, fol = LA_BASE[t]
            for f in fol:
                alts.append((t, su.text(base)[0] + ' ' + su.text(f)[0], [[su.s.id[base], 0, 0], [su.s.id[f], 0, 0]]))
        else:
            x, k = su.text(t)
            alts.append((t, x, [[k, 0, 0]]))
    # tokens the grammar does not know
    for x in ['{', '}', '\x7f', 'uescape']:
        alts.append((x, x, [[su.s.id.get(x.upper(), 0), 0, 0]]))
    alts.append(('U&""', 'U&"x"', [[-5, 0, 0]]))
    alts.append(("U&''", "U&'x'", [[-6, 0, 0]]))
    return alts


def prefixes(su, rng, extra):
    """an access string for every state, and `extra` random ones"""
    out = {}
    for q in sorted(su.g.dist):
        if su.g.dist[q] < BIG:
            out.setdefault(tuple(su.g.yield_of(su.g.path(q))), q)
    n0 = len(out)
    while len(out) < n0 + extra:
        s = su.random_sentence(rng)
        if su.realisable(s) and len(s) < 60:
            out.setdefault(tuple(s[:rng.randrange(len(s) + 1)]), -1)
    return list(out)


def viable(chk, su, pres):
    alts = alternatives(su)
    altf = os.path.join(chk.work, 'alts.txt')
    open(altf, 'w').write(vlib.hexlines([' ' + a[1] if a[1] else '' for a in alts]))
    texts, toks = [], []
    for p in pres:
        x, tk = su.layout(list(p))
        texts.append(x)
        toks.append(tk)
    # keep those whose tokens are all viable according to the automaton (precedence may forbid some)
    obs = vlib.harness(su.binary()[0], 'viable', texts, args=[altf], timeout=600)
    chk.log('enabled sets:', len(pres), 'prefixes x', len(alts), 'alternatives')
    data = []
    for tk, o in zip(toks, obs):
        if isinstance(o, dict):
            data.append({'toks': tk, 'ok': [], 'early': [], 'odd': [1]})
            continue
        data.append({'toks': tk, 'ok': [j + 1 for j, c in enumerate(o) if c in 'vA'],
                     'early': [j + 1 for j, c in enumerate(o) if c == 'E'], 'odd': [j + 1 for j, c in enumerate(o) if c in 'SP']})
    inp = {'alts': [a[2] for a in alts], 'data': data}
    tot, prints = vlib.tlc_shards('Viable', [inp], chk.pid + 'v', workers=vlib.NCPU, heap='16g', timeout=3000 if chk.thorough else 600,
                                  env={'TABLES': su.tables})
    chk.add_tlc(tot, len(pres))
    for p in prints[0]:
        if p[0] != 'MISMATCH':
            raise vlib.ToolError('unexpected TLC output %r' % (p,))
        k = p[1] - 1
        name = lambda js: [alts[j - 1][1] for j in js][:12]
        chk.violation('after %r: wrongly rejected %s, wrongly accepted %s, fails too early %s, too late %s, no verdict %s' %
                      (texts[k][:200], name(p[2]), name(p[3]), name(p[4]), name(p[5]), name(p[6])),
                      {'prefix': texts[k], 'alternatives': {'rejected': name(p[2]), 'accepted': name(p[3]), 'early': name(p[4]), 'late': name(p[5]), 'odd': name(p[6])}},
                      key='viable:' + texts[k])
    nv = sum(len(d['ok']) for d in data)
    chk.cov['enabled_sets_prefixes'] = len(pres)
    chk.cov['enabled_sets_alternatives'] = len(alts)
    chk.cov['enabled_sets_viable_pairs'] = nv
    chk.cov['enabled_sets_pairs'] = len(pres) * len(alts)
    chk.sample({'prefix': texts[len(texts) // 2], 'viable': [alts[j - 1][1] for j in data[len(texts) // 2]['ok']][:40]})


def accepts_prefix(su, p):
    st = [0]
    for t in su.s.filter([su.text(x)[1] for x in p]):
        if su.s.feed(st, t) != 'shift':
            return False
    return True


def check_C07(chk):
    su = Suite(chk)
    rng = random.Random(chk.seed + 7)
    pres = prefixes(su, rng, 12000 if chk.thorough else 300)
    # a prefix ending with a look-ahead keyword is judged per alternative; drop the ones that are no prefixes at all
    pres = [p for p in pres if accepts_prefix(su, p) or (p and p[-1] in LA_BASE and accepts_prefix(su, p[:-1]))]
    viable(chk, su, pres)
    sents = [x for x in su.cover() if su.realisable(x)]
    if chk.thorough:
        sents += su.g.cover(terminals=True)
        extra = 60000
    else:
        extra = 2500
    cases = [su.layout(x) for x in sents]
    for _ in range(extra):
        x = su.random_sentence(rng)
        if su.realisable(x) and len(x) < 150:
            cases.append(su.layout(x, rng, 'tight'))
            if rng.random() < .4:
                cases.append(su.layout(su.mutate(x, rng), rng, 'plain'))
    cases = list({c[0]: c for c in cases}.values())
    chk.log(len(cases), 'sentences')
    su.validate(cases, 'accept', 'a')
    # many repetitions, deep nesting, long tokens
    T = chk.thorough
    large = scale.nested(su, 12) + scale.nested(su, 300) + scale.nested(su, 1300, tails=T) + scale.long_prefix(su, 300) + scale.statements(su, 400)
    large += scale.nested(su, 10050, ['parentheses', 'lists', 'semicolons'], tails=T)
    large += scale.nested(su, 5000, ['names', 'columns', 'sums', 'casts', 'values'] if T else ['sums'], False)
    su.validate(list({c[0]: c for c in large}.values()), 'accept', 'l')
    chk.cov['large_inputs'] = len(large)
    # from bytes: scanner, filter and parser together
    pipeline(chk, [total.FAMILIES[k](n) for k in total.FAMILIES for n in ((2, 30, 70, 300) if T else (2, 70))], 'accept', su, 'p')
    pipe = [c[0] for c in rng.sample(cases, 20000 if chk.thorough else 1200)]
    pipeline(chk, pipe, 'accept', su)
    coverage(chk, su, pres, sents)


def coverage(chk, su, pres, sents):
    """what part of the automaton the run went through (by simulation)"""
    seen, red = set(), set()

    def visit(q, t, x):
        if x is not None:
            seen.add(q)
            if x < 0:
                red.add((q, -x))
    for x in sents:
        su.s.run(su.s.filter([su.text(n)[1] for n in x]), visit)
    chk.cov['automaton_states'] = len(su.s.a['kernels'])
    chk.cov['automaton_states_visited'] = len(seen)
    chk.cov['automaton_reductions'] = sum(len(l) for l in su.s.a['LA'])
    chk.cov['automaton_reductions_taken'] = len(red)


def check_C09(chk):
    su = Suite(chk)
    rng = random.Random(chk.seed + 9)
    base = su.cover()
    pick = base if chk.thorough else rng.sample(base, 2500)
    cases = []
    for x in pick:
        for _ in range(3 if chk.thorough else 2):
            cases.append(su.layout(su.mutate(x, rng), rng, rng.choice(['plain', 'mixed', 'mixed', 'space', 'tight'])))
        k = rng.randrange(len(x) + 1)
        cases.append(su.layout(x[:k], rng, 'mixed'))
    for _ in range(20000 if chk.thorough else 2500):
        x = su.random_sentence(rng)
        if su.realisable(x) and len(x) < 120:
            cases.append(su.layout(su.mutate(x, rng), rng, rng.choice(['plain', 'mixed', 'space'])))
    # tokens the grammar does not know, in all kinds of places
    for bad in ['{', '}', '\x7f', '\\', '\x01']:
        for x in rng.sample(base, 60):
            k = rng.randrange(len(x) + 1)
            tx = [su.text(n, rng) for n in x]
            tx.insert(k, (bad, su.s.id.get("'%s'" % bad, 0)))
            cases.append(su.layout(None, rng, rng.choice(['plain', 'mixed']), texts=tx))
    T = chk.thorough
    for n in [300, 4200, 33000, 66000]:
        cases += scale.long_prefix(su, n, rng, 1 if T or n == 66000 else .3)
    cases += scale.statements(su, 90) + scale.statements(su, 700) + scale.nested(su, 40) + scale.nested(su, 300)
    cases += scale.statements(su, 22000, scale.TAILS[2:5])[3:]
    cases = list({c[0]: c for c in cases}.values())
    obs = su.parse([c[0] for c in cases])
    chk.log(len(cases), 'inputs,', sum(o['r'] == 'syn' for o in obs), 'syntax errors,',
            sum(o['r'] == 'syn' and o['s'] == o['e'] for o in obs), 'at the end')
    su.validate(cases, 'accept', 'a', obs=obs)
    short = [c for c in cases if len(c[0]) < 500]
    pipe = [c[0] for c in rng.sample(short, 20000 if chk.thorough else 1500)]
    pipeline(chk, pipe, 'accept', su)
    chk.cov['inputs'] = len(cases)
    chk.cov['syntax_errors'] = sum(o['r'] == 'syn' for o in obs)
    chk.cov['syntax_errors_at_end'] = sum(o['r'] == 'syn' and o['s'] == o['e'] for o in obs)
    chk.cov['accepted'] = sum(o['r'] == 'ok' for o in obs)
