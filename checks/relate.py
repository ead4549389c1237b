"""C10 and C12: relations between parses of related inputs."""
import random
import vlib, ptrace, scale
from pool import Suite


def side(o, kinds, extra):
    d = {'r': o['r'] if o['r'] in ('ok', 'syn', 'err', 'rep') else 'no:' + o['r'], 's': o.get('s', 0) if o['r'] == 'syn' else 0,
         'e': o.get('e', 0) if o['r'] == 'syn' else 0, 'ev': ptrace.project(o['ev'], kinds, False) if o['r'] == 'ok' else []}
    d.update(extra)
    return d


def heavy(su, tx, rng):
    """a plain layout, but for one place (or a few) with much trivia"""
    b = scale.Build(su)
    at = {rng.randrange(len(tx) + 1) for _ in range(rng.choice([1, 1, 2, 3]))}
    for i in range(len(tx) + 1):
        if i in at:
            n = rng.choice([5, 17, 40, 90, 300, 300, 1100] if rng.random() < .98 else [5000, 33000, 66000])
            joined = 0 < i < len(tx) and tx[i - 1][0][-1:] == "'" and tx[i][0][:1] == "'"
            b.text(' ')
            for x, k in rng.choice([t for t in scale.trivia(n) if not (joined and t[0][0][:1] in '\n-')]):
                b.text(x, k)
        elif 0 < i < len(tx):
            b.text(' ')
        if i < len(tx):
            b.text(*tx[i])
    return b.case()


def check_C10(chk):
    su = Suite(chk)
    rng = random.Random(chk.seed + 10)
    T = chk.thorough
    kinds = su.binary()[2]
    base = [x for x in su.cover() if su.realisable(x)]
    rng.shuffle(base)
    groups = [x for x in (base if T else base[:3500])]
    groups += [su.mutate(x, rng) for x in (base if T else base[3500:6000])]
    for _ in range(30000 if T else 2500):
        x = su.random_sentence(rng)
        if su.realisable(x) and len(x) < 120:
            groups.append(x if rng.random() < .6 else su.mutate(x, rng))
    styles = ['tight', 'space', 'mixed', 'mixed'] + (['mixed', 'mixed', 'space', 'tight'] if T else [])
    inputs, plan = [], []
    for x in groups:
        tx = [su.text(n, rng) for n in x]
        vs = []
        for st in ['plain'] + styles:
            inp, tk = su.layout(x, rng, st, tx)
            vs.append((len(inputs), [[s, e] for k, s, e in tk if k not in (-2, -3)], len(inp.encode())))
            inputs.append(inp)
        for _ in range(4 if T else 1):
            inp, tk = heavy(su, tx, rng)
            vs.append((len(inputs), [[s, e] for k, s, e in tk if k not in (-2, -3)], len(inp.encode())))
            inputs.append(inp)
        plan.append(vs)
    obs = su.parse(inputs)
    chk.log(len(groups), 'token sequences,', len(inputs), 'layouts')
    for lo in range(0, len(plan), 12000):
        part = plan[lo:lo + 12000]
        data = [[side(obs[i], kinds, {'toks': tk, 'len': n}) for i, tk, n in vs] for vs in part]
        tot, prints = vlib.tlc_shards('Trivia', [data], chk.pid, workers=vlib.NCPU, heap='16g', timeout=3000 if T else 600)
        chk.add_tlc(tot, sum(len(d) for d in data))
        for p in prints[0]:
            if p[0] != 'MISMATCH':
                raise vlib.ToolError('unexpected TLC output %r' % (p,))
            vs = part[p[1] - 1]
            a, b = inputs[vs[0][0]], inputs[vs[p[2] - 1][0]]
            cut = lambda i: {k: v for k, v in obs[i].items() if k != 'ev'}
            chk.violation('%r and %r differ in their %s: %s and %s' % (a[:200], b[:300], p[3], su.show(p[4]), su.show(p[5])),
                          {'a': a, 'b': b, 'mismatch': p, 'observed': [cut(vs[0][0]), cut(vs[p[2] - 1][0])]}, key='trivia:' + b)
    chk.sample({'variants': [inputs[i] for i, *_ in plan[len(plan) // 2]]})
    chk.sample({'variants': [inputs[i] for i, *_ in plan[0]]})
    chk.cov['token_sequences'] = len(groups)
    chk.cov['layouts'] = len(inputs)
    chk.cov['accepted'] = sum(obs[vs[0][0]]['r'] == 'ok' for vs in plan)


SENSITIVE = ['select a from t order by a nulls first', 'select a not in (1)', 'select a not between 1 and 2', "select a not like 'x'", 'select a not similar to b', "select time with time zone 'x'",
             'create table t (a timestamp without time zone)', 'select * from f() with ordinality', 'select json_object(a : 1 format json)', "select U&'x', U&\"y\"", "select $a$ ; $A$ $a$",
             "select e'\\'\\n;'", "select 'a'\n'b;'", 'select /* ; /* ; */ */ 1', 'select -- ;\n 1', "select b'1', x'F', n'z'", 'select 1.5e-3 || $1 :: int[] , a.*', 'select not not a isnull',
             'with x as (select 1) select * from x', 'select a from t order by a using < nulls last', 'create function f() returns int begin atomic select 1; select 2; end',
             'select case when a then b else c end from t;', 'begin', 'end', 'select (((1)))', 'select 1 as "a;b"', 'values (1), (2)', 'table t', 'select 0x1F, 0b11, 1_000, .5, 1.']


def leading(su, cov):
    """a shortest covering sentence for every pair of first words"""
    best = {}
    for x in cov:
        for k in (tuple(x[:1]), tuple(x[:2])):
            if ';' not in ''.join(x) and (k not in best or len(x) < len(best[k])):
                best[k] = x
    return [su.layout(x, None, 'plain')[0] for x in dict.fromkeys(map(tuple, best.values()))]


EMPTY = ['', ' ', '/* ; */', '-- ;\n', '\n', ';', ' ; ;', '/**/;--']
JOINS = [';', ' ; ', '\n;\n', ';/*;*/', '/* a */;-- ;\n', '\t;\r\n']


def check_C12(chk):
    su = Suite(chk)
    rng = random.Random(chk.seed + 12)
    T = chk.thorough
    kinds = su.binary()[2]
    cov = [x for x in su.cover() if su.realisable(x)]
    atoms = []
    for x in (cov if T else rng.sample(cov, 5000)):
        atoms.append(su.layout(x, rng, rng.choice(['plain', 'mixed']))[0])
    for x in rng.sample(cov, 4000 if T else 800):
        atoms.append(su.layout(x, rng, 'plain')[0])
        m = su.mutate(x, rng)
        atoms.append(su.layout(m, rng, rng.choice(['plain', 'mixed']))[0])
        atoms.append(su.layout(x[:rng.randrange(len(x) + 1)], rng, 'mixed')[0])
    for _ in range(20000 if T else 1500):
        x = su.random_sentence(rng)
        if su.realisable(x) and len(x) < 80:
            atoms.append(su.layout(x, rng, rng.choice(['plain', 'mixed', 'space']))[0])
    atoms = list(dict.fromkeys(atoms)) + EMPTY
    aobs = su.parse(atoms)
    good = [i for i, o in enumerate(aobs) if o['r'] == 'ok']
    bad = [i for i, o in enumerate(aobs) if o['r'] == 'syn']
    empt = [i for i, a in enumerate(atoms) if a in EMPTY]
    plans = [[i, good[(n * 7 + 3) % len(good)]] for n, i in enumerate(good)] + [[good[(n * 5 + 1) % len(good)], i] for n, i in enumerate(good)]
    plans += [[rng.choice(good), i, rng.choice(good)] for i in bad] + [[i, rng.choice(good)] for i in bad] + [[rng.choice(good), i] for i in bad]
    for _ in range(20000 if T else 2000):
        plans.append([rng.choice(good if rng.random() < .8 else empt) for _ in range(rng.randrange(2, 7))])
        plans.append([rng.choice(good if rng.random() < .6 else empt if rng.random() < .5 else bad) for _ in range(rng.randrange(2, 6))])
    for n in [30, 100, 270, 600] + ([3000] if T else []):
        for k in range(4 if n < 3000 else 1):
            plans.append([rng.choice(good if rng.random() < .9 else empt) for _ in range(n)])
            plans.append([rng.choice(good) for _ in range(n)] + [rng.choice(bad)] + [rng.choice(good) for _ in range(3)])
            plans.append([good[k]] * n)
    # the statement that goes on over semicolons
    sp = len(atoms)
    atoms += ['create function f() returns int begin atomic select 1', 'end', 'create rule r as on insert to t do (select 1', 'select 2)', 'begin atomic', 'begin']
    aobs += su.parse(atoms[sp:])
    plans += [[a, b] for a in range(sp, len(atoms)) for b in range(sp, len(atoms))] + [[a, b, c] for a in range(sp, len(atoms)) for b in range(sp, len(atoms)) for c in (good[0], sp + 1)]
    # every kind of statement before and after constructs that need more than one token, or a mode of the scanner
    sp2 = len(atoms)
    atoms += leading(su, cov) + SENSITIVE
    aobs += su.parse(atoms[sp2:])
    lead = [i for i in range(sp2, len(atoms) - len(SENSITIVE))]
    sens = list(range(len(atoms) - len(SENSITIVE), len(atoms)))
    chk.cov['leading_statements'] = len(lead)
    first = {}
    for i in lead:
        first.setdefault(atoms[i].split(' ')[0], i)
    for i in lead:
        one = first[atoms[i].split(' ')[0]] == i
        for k, j in enumerate(sens):
            if T or one or k % 4 == i % 4:
                plans.append([i, j])
            if T or k % 16 == i % 16:
                plans += [[j, i, j], [i, i, j], [i, good[(i * k) % len(good)], j], [j, i]]
    inputs, meta = [], []
    for p in plans:
        s, off, at = '', [], []
        for n, i in enumerate(p):
            off.append(len(s.encode()))
            s += atoms[i]
            if n + 1 < len(p):
                j = rng.choice(JOINS)
                # a line comment at the end of a part must not swallow the semicolon
                if atoms[i][-1:] != '\n' and '--' in atoms[i]:
                    j = '\n' + j
                at.append(len((s + j[:j.index(';')]).encode()) if '/*;*/' not in j[:j.index(';')] else 0)
                s += j
        inputs.append(s)
        meta.append((p, off, at))
    obs = su.parse(inputs)
    chk.log(len(atoms), 'statements,', len(inputs), 'joined inputs')
    spine = [su.s.id['stmtmulti'], su.s.id['parse_toplevel'], -4]
    cache = {}

    def part(i):
        if i not in cache:
            cache[i] = side(aobs[i], kinds, {'len': len(atoms[i].encode())})
        return cache[i]
    for lo in range(0, len(inputs), 15000):
        data = []
        for n in range(lo, min(lo + 15000, len(inputs))):
            p, off, at = meta[n]
            data.append({'spine': spine, 'semi': su.s.id["';'"], 'at': at, 'parts': [dict(part(i), off=o) for i, o in zip(p, off)],
                         'whole': side(obs[n], kinds, {'len': len(inputs[n].encode())})})
        tot, prints = vlib.tlc_shards('Compose', [data], chk.pid, workers=vlib.NCPU, heap='16g', timeout=3000 if T else 600)
        chk.add_tlc(tot, len(data))
        for p in prints[0]:
            if p[0] != 'MISMATCH':
                raise vlib.ToolError('unexpected TLC output %r' % (p,))
            n = lo + p[1] - 1
            chk.violation('joined input %r, part %d: %s: expected %s, observed %s' % (inputs[n][:400], p[2], p[3], su.show(p[4]), su.show(p[5])),
                          {'input': inputs[n], 'parts': [atoms[i] for i in meta[n][0]], 'mismatch': p}, key='compose:' + inputs[n])
    chk.cov['statements'] = len(atoms)
    chk.cov['joined_inputs'] = len(inputs)
    chk.cov['joined_accepted'] = sum(o['r'] == 'ok' for o in obs)
    chk.cov['joined_rejected'] = sum(o['r'] == 'syn' for o in obs)
    chk.sample({'joined': inputs[len(inputs) // 2]})
    chk.sample({'joined': inputs[-1]})
