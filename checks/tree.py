"""C01, C08, C11, C14: the syntax tree."""
import os, random
import vlib, ptrace, scangen, scale
from pool import Suite

RES = {'ok': 0, 'err': 1, 'rep': 2, 'syn': 3, 'panic': 4, 'abort': 5, 'nohook': 6}


def flat(o, tree=True):
    """an observation as a list of integer lists, for Agree.tla"""
    out = [[RES.get(o['r'], 9)]]
    if o['r'] == 'ok':
        if tree:
            out += [[k if isinstance(k, int) else 0 for k in e] for e in o['ev']]
    else:
        for f in ('m', 'd'):
            out.append(list(str(o.get(f, '')).encode()))
        out.append([o.get('p', 0), o.get('s', 0), o.get('e', 0)])
    return out


def agree(chk, inputs, obs_a, obs_b, name, what, tree=True, key='agree:'):
    n = 0
    for lo in range(0, len(inputs), 40000):
        idx = range(lo, min(lo + 40000, len(inputs)))
        data = [[flat(obs_a[i], tree), flat(obs_b[i], tree)] for i in idx]
        tot, prints = vlib.tlc_shards('Agree', [data], chk.pid + name, workers=vlib.NCPU, heap='12g', timeout=3000 if chk.thorough else 600)
        chk.add_tlc(tot, 2 * len(data))
        for p in prints[0]:
            if p[0] != 'MISMATCH':
                raise vlib.ToolError('unexpected TLC output %r' % (p,))
            i = lo + p[1] - 1
            n += 1
            cut = lambda o: {k: v for k, v in o.items() if k != 'ev'}
            chk.violation('input %r: %s differ at event %d: %r and %r (%r, %r)' % (inputs[i][:300], what, p[2], p[3], p[4], cut(obs_a[i]), cut(obs_b[i])),
                          {'input': inputs[i], 'a': obs_a[i], 'b': obs_b[i]}, key=key + inputs[i])
    return n


def sentences(chk, su, rng, n_cover, n_random, style, maxlen=150, texts=True):
    """layouts of covering and random sentences: (input, tokens)"""
    sents = [x for x in su.cover() if su.realisable(x)]
    if n_cover is not None and n_cover < len(sents):
        sents = rng.sample(sents, n_cover)
    pick = (lambda: rng.choice(style)) if isinstance(style, list) else (lambda: style)
    cases = []
    for x in sents:
        cases.append(su.layout(x, rng if texts else None, pick(), None) if texts else su.layout(x, rng, pick(), [su.text(n) for n in x]))
    for _ in range(n_random):
        x = su.random_sentence(rng)
        if su.realisable(x) and len(x) < maxlen:
            cases.append(su.layout(x, rng, pick()))
    return list({c[0]: c for c in cases}.values())


def odd_inputs(rng, n):
    """inputs of nothing but trivia, and texts from the scanner's generators between statements"""
    tr = ['', ' ', '\n', '\t \r\n\f\v', '--', '-- x', '-- x\n', '/**/', '/* é /* */ */', '  /* a */ -- b\n  ', '--\n--\r--', ';', ' ; ', ';;;', ' ;/**/; --', '/*;*/']
    out = list(tr) + [a + b for a in tr for b in tr] + ['select 1' + a for a in tr] + [a + 'select 1' for a in tr]
    lits = ["'é日本\U0001F600'", '"\U0001F600 x"', '$é$ 日本 $é$', "e'\\n\\x41é'", "U&'\\0061é'", 'U&"d\\0061"', "n'x'", "b'1'", "x'f'", "'a' \n 'b'", "'a'--x\n'b'", '1.5e-3', '$1', 'é$é', '日本']
    for l in lits:
        for m in lits:
            out.append('select %s , %s' % (l, m))
            out.append('select %s/**/,--x\n%s;' % (l, m))
    for _ in range(n):
        out.append('select ' + rng.choice(lits) + rng.choice([' ', '\n', '/* */', '--\n']) + ',' + rng.choice(tr) + rng.choice(lits) + rng.choice(tr))
    return list(dict.fromkeys(out))


def big_inputs():
    out = ['select ' + ' + '.join(['1'] * 3000), 'select \'' + 'x' * 300000 + "'", '/*' + '*' * 200000 + '*/ select 1', 'select 1' + ' ' * 70000 + ';',
           'select 1;' * 5000, 'select "' + '日本' * 50000 + '"', '(' * 500 + 'select 1' + ')' * 500, 'select ' + '(' * 800 + '1' + ')' * 800,
           'insert into t values ' + ','.join("(%d,'a%d')" % (i, i) for i in range(2500)), '\n'.join('-- c %d' % i for i in range(8000)),
           'select ' + 'a.' * 500 + 'b', 'select $$' + "a'b" * 60000 + '$$', 'select ' + ','.join('c%d' % i for i in range(6000))]
    return out


# ---------------------------------------------------------------- C01
def lossless(chk, su, inputs, variant, name):
    b, _, kinds = su.binary(variant)
    obs = vlib.harness(b, 'parsetext', inputs, timeout=300)
    cls = lambda k: k if k in (-1, -2, -3, -4) else 0
    recs, keep = [], []
    for x, o in zip(inputs, obs):
        if o['r'] != 'ok':
            continue
        ev = []
        for e in o['ev']:
            c = cls(kinds.get(e[0], 0))
            ev.append([c, e[1], e[2], e[3], 0] if isinstance(e[3], list) else [c, e[1], e[2], e[3]])
        recs.append({'b': list(x.encode()), 'ev': ev, 'bad': o['bad']})
        keep.append(x)
    for lo in range(0, len(recs), 20000):
        part = recs[lo:lo + 20000]
        tot, prints = vlib.tlc_shards('Lossless', [part], chk.pid + name, workers=vlib.NCPU, heap='16g', timeout=3000 if chk.thorough else 600)
        chk.add_tlc(tot, len(part))
        for p in prints[0]:
            if p[0] != 'MISMATCH':
                raise vlib.ToolError('unexpected TLC output %r' % (p,))
            i = lo + p[1] - 1
            chk.violation('input %r (%s build): %s at event %d, byte %d' % (keep[i][:300], variant, p[3], p[2], p[4]),
                          {'input': keep[i], 'tree': recs[i]['ev'], 'mismatch': p}, key='lossless:' + keep[i])
    chk.cov['trees_' + variant] = len(recs)
    chk.cov['leaves_' + variant] = sum(len(e) == 5 for r in recs for e in r['ev'])
    if keep:
        i = len(keep) // 2
        chk.sample({'input': keep[i], 'leaves': [e[:3] for e in recs[i]['ev'] if len(e) == 5][:20]})
    return len(recs)


def check_C01(chk):
    su = Suite(chk)
    rng = random.Random(chk.seed + 1)
    T = chk.thorough
    cases = sentences(chk, su, rng, None if T else 6000, 30000 if T else 2500, ['mixed', 'mixed', 'space', 'tight'])
    ins = [c[0] for c in cases] + odd_inputs(rng, 5000 if T else 500)
    # whatever else is accepted: fragments of the scanner generators
    ins += scangen.randoms(rng, 40000 if T else 4000) + ['select ' + x for x in scangen.randoms(rng, 40000 if T else 4000)]
    ins = list(dict.fromkeys(ins))
    n = lossless(chk, su, ins, 'default', 'a')
    big = big_inputs() + [scale.trivia_script(su, 5000, 14)[0], scale.trivia_script(su, 3, 9000)[0]] + [c[0] for c in scale.nested(su, 300, tails=False)]
    big += [c[0] for c in rng.sample(scale.long_prefix(su, 66000), 60 if T else 15) + rng.sample(scale.long_prefix(su, 300), 150)]
    lossless(chk, su, big, 'default', 'b')
    chk.cov['trees_big'] = chk.cov.pop('trees_default')
    chk.cov['trees_default'] = n
    lossless(chk, su, ins if T else rng.sample(ins, 2500), 'full', 'c')
    # what lies between tokens and comments is white space: the leaves against the scanner
    toks = [(i, None) for i in rng.sample(ins, 8000 if T else 800)]
    su.validate(toks, 'trivia', 'd')


# ---------------------------------------------------------------- C08
def check_C08(chk):
    su = Suite(chk)
    rng = random.Random(chk.seed + 8)
    T = chk.thorough
    cases = sentences(chk, su, rng, None, 60000 if T else 4000, ['plain', 'mixed'] if T else 'plain', texts=True)
    if T:
        cases += [su.layout(x) for x in su.g.cover(terminals=True)]
    # larger mixtures: several statements, deeper expressions
    for _ in range(6000 if T else 400):
        x = []
        for _ in range(rng.randrange(2, 6)):
            x += su.g.random_yield('toplevel_stmt', rng, rng.choice([4, 10, 30])) + ["';'"]
        if su.realisable(x) and len(x) < 600:
            cases.append(su.layout(x, rng, 'mixed'))
    cases = list({c[0]: c for c in cases}.values())
    obs = su.parse([c[0] for c in cases])
    ok = sum(o['r'] == 'ok' for o in obs)
    chk.log(len(cases), 'sentences,', ok, 'accepted')
    # a rejected sentence is a matter of C07: only trees are judged here
    keep = [k for k, o in enumerate(obs) if o['r'] == 'ok']
    accepted_trees(chk, su, [cases[k] for k in keep], [obs[k] for k in keep], 'tree', 'a')
    large = scale.nested(su, 12, tails=False) + scale.nested(su, 300, tails=False) + scale.statements(su, 400, scale.TAILS[:2])
    lobs = su.parse([c[0] for c in large])
    lk = [k for k, o in enumerate(lobs) if o['r'] == 'ok']
    accepted_trees(chk, su, [large[k] for k in lk], [lobs[k] for k in lk], 'tree', 'l')
    chk.cov['large_trees'] = len(lk)
    pipe = [k for k in rng.sample(keep, min(len(keep), 8000 if T else 1000))]
    accepted_trees(chk, su, [(cases[k][0], None) for k in pipe], [obs[k] for k in pipe], 'tree', 'b')
    rules_used(chk, su, [c for c in cases])
    chk.cov['sentences'] = len(cases)
    chk.cov['trees'] = ok


def accepted_trees(chk, su, cases, obs, mode, name, variant='default'):
    return su.validate(cases, mode, name, obs=obs, variant=variant)


def rules_used(chk, su, cases):
    used = set()

    def visit(q, t, x):
        if x is not None and x < 0:
            used.add(-x)
    for inp, tk in cases:
        su.s.run(su.s.filter([k for k, *_ in tk if k not in (-2, -3)]), visit)
    chk.cov['grammar_rules'] = len(su.s.rules) - 1
    chk.cov['grammar_rules_used'] = len(used)
    chk.cov['grammar_rules_unused'] = [str(su.s.rules[r][:2]) for r in range(1, len(su.s.rules)) if r not in used][:20]


# ---------------------------------------------------------------- C11
def check_C11(chk):
    su = Suite(chk)
    rng = random.Random(chk.seed + 11)
    T = chk.thorough
    cases = sentences(chk, su, rng, None if T else 9000, 40000 if T else 3000, ['mixed', 'mixed', 'mixed', 'space', 'tight'])
    if T:
        cases += sentences(chk, su, rng, None, 40000, 'mixed')
    for _ in range(6000 if T else 500):
        x = []
        for _ in range(rng.randrange(2, 5)):
            x += su.g.random_yield('toplevel_stmt', rng, rng.choice([2, 4, 10])) + ["';'"] * rng.choice([1, 1, 2])
        if su.realisable(x) and len(x) < 300:
            cases.append(su.layout(x, rng, 'mixed'))
    cases = list({c[0]: c for c in cases}.values())
    obs = su.parse([c[0] for c in cases])
    keep = [k for k, o in enumerate(obs) if o['r'] == 'ok']
    chk.log(len(cases), 'layouts,', len(keep), 'accepted')
    accepted_trees(chk, su, [cases[k] for k in keep], [obs[k] for k in keep], 'trivia', 'a')
    large = [scale.trivia_script(su, 5000 if T else 600, 14), scale.trivia_script(su, 2, 400), scale.trivia_script(su, 30, 70)] + scale.long_prefix(su, 300) + rng.sample(scale.long_prefix(su, 66000), 40)
    lobs = su.parse([c[0] for c in large])
    lk = [k for k, o in enumerate(lobs) if o['r'] == 'ok']
    accepted_trees(chk, su, [large[k] for k in lk], [lobs[k] for k in lk], 'trivia', 'l')
    chk.cov['large_layouts'] = len(lk)
    odd = odd_inputs(rng, 3000 if T else 300)
    pipe = [cases[k][0] for k in rng.sample(keep, min(len(keep), 8000 if T else 800))] + odd
    oo = su.parse(pipe)
    keep2 = [k for k, o in enumerate(oo) if o['r'] == 'ok']
    accepted_trees(chk, su, [(pipe[k], None) for k in keep2], [oo[k] for k in keep2], 'trivia', 'b')
    chk.cov['layouts'] = len(keep) + len(keep2)
    chk.cov['trivia_leaves_expected'] = sum(1 for k in keep for t in cases[k][1] if t[0] in (-2, -3))


# ---------------------------------------------------------------- C14
def check_C14(chk):
    su = Suite(chk)
    rng = random.Random(chk.seed + 14)
    T = chk.thorough
    cases = sentences(chk, su, rng, None if T else 9000, 30000 if T else 2500, ['plain', 'mixed', 'space'])
    ins = [c[0] for c in cases]
    full = su.parse(ins, 'full')
    base = su.parse(ins, 'default')
    keep = [k for k, o in enumerate(full) if o['r'] == 'ok']
    chk.log(len(cases), 'inputs,', len(keep), 'accepted')
    # the complete derivation
    su.validate([cases[k] for k in keep], 'full', 'a', variant='full', obs=[full[k] for k in keep])
    # identical outcomes, and errors identical to the byte
    bad = []
    for _ in range(20000 if T else 3000):
        x = su.random_sentence(rng)
        if su.realisable(x) and len(x) < 120:
            bad.append(su.layout(su.mutate(x, rng), rng, rng.choice(['plain', 'mixed', 'space']))[0])
    bad += scangen.randoms(rng, 20000 if T else 3000) + scangen.utf8_randoms(rng, 10000 if T else 1500) + scangen.structured(rng, 10000 if T else 1500) + odd_inputs(rng, 200) + big_inputs()
    bad += [c[0] for c in scale.nested(su, 200) + scale.statements(su, 300) + rng.sample(scale.long_prefix(su, 300), 100) + rng.sample(scale.long_prefix(su, 66000), 20)]
    bad = list(dict.fromkeys(bad))
    bf, bd = su.parse(bad, 'full'), su.parse(bad, 'default')
    agree(chk, ins + bad, full + bf, base + bd, 'b', 'outcomes of the two builds', tree=False)
    # dropping the empty nodes and the trivia gives the default build's tree
    pruned, plain, names = [], [], []
    kf, kd = su.binary('full')[2], su.binary('default')[2]
    for x, f, d in zip(ins + bad, full + bf, base + bd):
        if f['r'] == 'ok' and d['r'] == 'ok':
            pruned.append({'r': 'ok', 'ev': prune(f['ev'], kf)})
            plain.append({'r': 'ok', 'ev': prune(d['ev'], kd)})
            names.append(x)
    agree(chk, names, pruned, plain, 'c', 'trees of the two builds without empty nodes and trivia')
    chk.cov['inputs'] = len(ins) + len(bad)
    chk.cov['full_derivations'] = len(keep)
    chk.cov['errors_compared'] = sum(o['r'] != 'ok' for o in full + bf)
    chk.cov['elided_nodes_seen'] = sum(1 for k in keep for e in full[k]['ev'] if len(e) == 4 and e[1] == e[2])


def prune(ev, kinds):
    """postorder without empty nodes and trivia leaves, children recounted"""
    out, st = [], []
    for x in ev:
        k = kinds.get(x[0], -99)
        if len(x) == 3:
            dead = k in ptrace.TRIVIA
            st.append(dead)
            if not dead:
                out.append([k, x[1], x[2]])
        else:
            n = x[3]
            ch = st[len(st) - n:] if n else []
            if n:
                del st[len(st) - n:]
            c = sum(1 for d in ch if not d)
            dead = c == 0 and k != -4
            st.append(dead)
            if not dead:
                out.append([k, c])
    return out
