"""C21: parsing is a pure function."""
import os, random, re
from concurrent.futures import ThreadPoolExecutor
import vlib, scangen, scale
from pool import Suite
import total

FIXED = ['', ' ', ';', 'select 1', 'select 2', 'select 1 ', 'SELECT 1', 'select a', 'select b', "select 'a'", "select 'b'", "select 'a", 'select "a', 'select "', '""',
         '/* x', '/* /* x */', '/*', '/* x */', '$a$ x', '$a$ x $a$', '$b$ x $a$', "e'a", "e'\\", "e'\\ud83d'", "e'\\ud83d\\ude00'", "e'\\u0041'", "u&'a", 'u&"a', "x'1", "x'1'", "b'1",
         "'a'\n'b'", "'a'\n'b", "'a' 'b'", '1a', '0x', '1..', '$1', '$1a', '$99999999999', '+' * 64, '+' * 63, '--', '-- x', '\x00', 'select \x00', '日本', "'日本", '"日本"',
         'select (', 'select )', 'select 1 +', 'select not', 'select not between', 'with', 'with time', 'select 1 nulls first', 'select 1 order by a nulls', 'create table a (b int)',
         'create table a (b int', 'select a.b.c', 'insert into t values (1,2)', 'insert into t values (1,2', 'begin', 'end', 'begin; end', 'select 1; select', 'select 1; select 2; select 3',
         "select U&'x'", 'select U&"x"', "select n'x'", 'select {', 'select a -- c', 'select a /* c */ , b', '(' * 50 + 'select 1' + ')' * 50, '(' * 50]


def siblings(x, rng):
    """Inputs that share much with x -- lengths, ends, prefixes, hash-like features -- and are not x."""
    out = []

    def words(f, share=1.0):
        out.append(re.sub(r'[A-Za-z_]{3,}', lambda m: f(m.group(0)) if rng.random() < share else m.group(0), x))

    def put(w, i, c):
        return w[:i] + c + w[i + 1:]
    inner = lambda w: [i for i in range(1, len(w) - 1) if i != len(w) // 2] or [1]
    words(lambda w: put(w, rng.choice(inner(w)), 'x'))
    words(lambda w: put(w, rng.choice(inner(w)), '_'), .5)
    words(lambda w: w[0] + w[1:-1][::-1] + w[-1])
    words(lambda w: put(w, len(w) - 1, 'q'))
    words(lambda w: put(w, 0, 'q'))
    words(lambda w: ''.join(sorted(w)))
    words(lambda w: w + 'x')
    words(lambda w: w[:-1])
    words(lambda w: '"' + w + '"')
    words(str.swapcase)
    out.append(x[:-1])
    out.append(x + ' x')
    out.append(re.sub(r'\s+', ' /* c */ ', x))
    out.append(re.sub(r'\d', '7', x))
    return [y for y in dict.fromkeys(out) if y != x]


def check_C21(chk):
    su = Suite(chk)
    rng = random.Random(chk.seed + 21)
    T = chk.thorough
    ins = list(FIXED) + scangen.boundaries()[::(3 if T else 60)]
    cover = [x for x in su.cover() if su.realisable(x)]
    for x in rng.sample(cover, 400 if T else 60):
        ins.append(su.layout(x, rng, 'mixed')[0])
        ins.append(su.layout(su.mutate(x, rng), rng, 'mixed')[0])
        # same length, same beginning, other content
        y = ins[-2]
        ins += [y[:-1] + 'z', y.swapcase(), y[:len(y) // 2] + ' ' + y[len(y) // 2 + 1:]]
    ins += scangen.randoms(rng, 400 if T else 60)
    ins += [total.FAMILIES[k](200) for k in total.FAMILIES]
    ins += ['select ' + ', '.join(['a'] * n) for n in (100, 1000, 5000)] + ["select '" + 'x' * n + e for n in (5000, 70000) for e in ("'", "''", '', "' from from")] + ['(' * 500 + 'select 1' + ')' * k for k in (499, 500)]
    # inputs followed by what resembles them
    kin = {}
    kws = sorted(set(su.s.word_of.values()))
    bases = ['select ' + ', '.join('1 as %s' % w for w in kws[k::4]) for k in range(4)] + ['select ' + ' '.join(w for w in kws)]
    bases += [su.layout(x, rng, 'mixed')[0] for x in rng.sample(cover, 300 if T else 40)]
    for x in bases:
        sib = siblings(x, rng)
        ins += [x] + sib
        kin[x] = sib
    # of one length, the same in all but two bytes, with every kind of outcome
    groups = []
    tails = ["'a", '"a', '12', 'a ', '1a', '$$', '/*', '--', '""', '{ ', "''", ') ', '; ', "e'", '\x00a', '  ', ', ', "'\n", '+-', 'é']
    for fill in ['1 , ', 'a12 , b34 , c56 , d78 ', "'x' , " * 12, 'é, "B" -- \n, ' * 20]:
        for form in ['select {f}{t}', 'select {f}{t}{f}', 'select {t}{f}', '{t}{f}', '{f}{t}', 'select {f}{t} {t}']:
            g = list(dict.fromkeys(form.format(f=fill, t=t) for t in tails))
            groups.append(g if T else rng.sample(g, 9))
            ins += groups[-1]
    ins = list(dict.fromkeys(ins))
    where = {x: i for i, x in enumerate(ins)}
    b = su.binary()[0]
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        ref = list(ex.map(lambda x: vlib.harness(b, 'digest', [x], timeout=100)[0], ins))
    # a digest per distinct result, as the histories print them
    ref = [r if isinstance(r, str) else r['r'] for r in ref]
    n = len(ins)
    plans = []
    # every ordered pair of the fixed inputs: one after the other, and again
    m = len(FIXED) if not T else min(n, 160)
    for i in range(m):
        plan = []
        for j in range(m):
            plan += [i, j]
        plans.append([plan + [i]])
    for g in groups:
        plan = []
        for x in g:
            for y in g:
                plan += [where[x], where[y]]
        plans.append([plan])
    # single-threaded mixtures, and many repetitions of one input
    for _ in range(60 if T else 12):
        plans.append([[rng.randrange(n) for _ in range(1500)]])
    plans.append([[i for i in range(n)] * 3])
    for i in rng.sample(range(n), 40 if T else 6):
        plans.append([[i] * 1200])
    for x, sib in kin.items():
        plan = [where[x]]
        for y in sib:
            plan += [where[y], where[x]]
        # the first call of the process is not that of x, and every other word was seen before
        plans.append([[where[y] for y in sib] + plan + [where[y] for y in sib]])
    # threads: the same input everywhere, different ones, failing and succeeding ones
    for _ in range(400 if T else 40):
        k = rng.choice([2, 3, 4, 8, 16])
        pool = rng.sample(range(n), rng.choice([1, 2, 3, 10, 40]))
        plans.append([[rng.choice(pool) for _ in range(40)] for _ in range(k)])
    # short ones, explored in every order
    for _ in range(600 if T else 150):
        pool = rng.sample(range(n), rng.choice([1, 2, 2, 3]))
        plans.append([[rng.choice(pool) for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([2, 3]))])
    lines = [';'.join(','.join(map(str, p)) for p in pl) for pl in plans]
    f = os.path.join(chk.work, 'inputs.txt')
    open(f, 'w').write(vlib.hexlines(ins))
    runs = []
    # each chunk of histories is one process
    size = max(1, len(lines) // 8)
    for lo in range(0, len(lines), size):
        runs += vlib.harness(b, 'histories', lines[lo:lo + size], args=[f], timeout=300, lines=True)
    data, calls = [], 0
    for pl, r in zip(plans, runs):
        th = [[] for _ in pl]
        if isinstance(r, dict):
            # the process died
            chk.violation('a process with %d calls on %d threads died: %r' % (sum(map(len, pl)), len(pl), r), {'plan': [[ins[i] for i in p[:50]] for p in pl], 'observed': r}, key='pure:died')
            continue
        for t, i, d in r:
            th[t - 1].append([i, d])
            calls += 1
        data.append(th)
    chk.log(n, 'inputs', len(plans), 'histories', calls, 'observations')
    tot, prints = vlib.tlc_shards('Pure', [{'ref': ref, 'data': data}], chk.pid, workers=vlib.NCPU, heap='12g', timeout=3000 if T else 700)
    chk.add_tlc(tot, len(data))
    for p in prints[0]:
        if p[0] != 'MISMATCH':
            raise vlib.ToolError('unexpected TLC output %r' % (p,))
        h = data[p[1] - 1]
        before = [ins[x[0] - 1][:100] for x in h[p[2] - 1][:p[3]]][-6:]
        chk.violation('%d threads, thread %d, observation %d: %r gives %s, in a fresh process %s; before it: %r' % (len(h), p[2], p[3], ins[p[4] - 1][:200], p[5], p[6], before),
                      {'input': ins[p[4] - 1], 'before': before, 'threads': len(h)}, key='pure:' + ins[p[4] - 1])
    chk.cov['inputs'] = n
    chk.cov['histories'] = len(data)
    chk.cov['observations'] = calls
    chk.cov['concurrent_histories'] = sum(len(d) > 1 for d in data)
    chk.sample({'history': [[ins[i][:60] for i in p[:4]] for p in plans[-1]]})
