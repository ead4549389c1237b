"""C02: every input gets a tree or an error."""
import random
import vlib, scangen
from pool import Suite
import tree, certify

FAMILIES = {
    'parentheses': lambda n: 'select ' + '(' * n + '1' + ')' * n,
    'subselects': lambda n: '(' * n + 'select 1' + ')' * n,
    'sums': lambda n: 'select 1' + '+1' * n,
    'lists': lambda n: 'select 1' + ',1' * n,
    'nots': lambda n: 'select ' + 'not ' * n + 'true',
    'negations': lambda n: 'select ' + '- ' * n + '1',
    'statements': lambda n: 'select 1;' * n,
    'unions': lambda n: 'select 1' + ' union select 1' * n,
    'joins': lambda n: 'select 1 from a' + ' cross join b' * n,
    'arrays': lambda n: 'select array' + '[' * n + '1' + ']' * n,
    'cases': lambda n: 'select ' + 'case when 1 then ' * n + '1' + ' end' * n,
    'indirection': lambda n: 'select a' + '.b' * n,
    'semicolons': lambda n: ';' * n,
    'comments': lambda n: '--\n' * n + '/**/' * n,
    'unclosed': lambda n: 'select ' + '(' * n,
    'unopened': lambda n: 'select ' + ')' * n,
    'strings': lambda n: "select 'a'" + "\n'a'" * n,
    'words': lambda n: 'a ' * n,
    'operators': lambda n: 'select ' + '+ ' * n,
    'quotes': lambda n: "'" * n,
    'dollars': lambda n: '$' * n,
    'backslashes': lambda n: "e'" + '\\' * n,
    'digits': lambda n: 'select ' + '1' * n,
    'underscores': lambda n: 'select 1' + '_1' * n,
    'casts': lambda n: 'select 1' + '::int' * n,
    'subscripts': lambda n: 'select a' + '[1]' * n,
    'with': lambda n: 'with a as (' * n + 'select 1' + ') select 1' * n,
    'calls': lambda n: 'select ' + 'f(' * n + ')' * n,
    'values': lambda n: 'values (1)' + ',(1)' * n,
    'nested comments': lambda n: '/*' * n + '*/' * n,
    'open comments': lambda n: '/*' * n,
    'slashes': lambda n: '/ ' * n,
    'long operator': lambda n: '+' * n,
    'long word': lambda n: 'select ' + 'w' * n,
    'long string': lambda n: "select '" + 'w' * n + "'",
    'long name': lambda n: 'select "' + 'w' * n + '"',
    'long dollar': lambda n: 'select $a$' + '$a' * n + '$a$',
    'long space': lambda n: ' ' * n + 'x',
}
# the families that end in a tree whose depth grows with n: known to overflow the stack (K1)
DEEP = 100000


def chars(thorough):
    cps = list(range(1, 0x3000)) if thorough else list(range(1, 0x600)) + list(range(0x1680, 0x1690)) + list(range(0x2000, 0x2070)) + list(range(0x3000, 0x3010))
    cps += [0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0xe0001, 0x10ffff, 0xac00, 0xfdd0]
    out = []
    for c in cps:
        x = chr(c)
        out += [x, 'select ' + x, "'" + x, "e'\\" + x + "'", 'a' + x + 'b', '$' + x + '$', '1' + x, "u&'\\" + x, '+' + x, "'a'" + x + "'b'", '/' + x, '-' + x, '"' + x + '"', x + "'"]
    return out


def mutate_text(x, rng):
    s = list(x)
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        i = rng.randrange(len(s) + 1)
        c = rng.choice(list("'\"$\\/*-()[],;:.+<>=!|&%^#?@ \n\t\r\f\v\0abeEnNuUxXbB019_") + ['é', '日', '\U0001F600', '\u0301', '\ufeff', '\u2028', '\x7f', '\x01'])
        if k < .35 and s:
            del s[min(i, len(s) - 1)]
        elif k < .7:
            s.insert(i, c)
        elif k < .85 and s:
            s[min(i, len(s) - 1)] = c
        else:
            s = s[:i]
    return ''.join(s)


def judge(chk, inputs, obs, name, us=None, keys=None):
    for lo in range(0, len(inputs), 200000):
        recs = []
        for i in range(lo, min(lo + 200000, len(inputs))):
            x, o = inputs[i], obs[i]
            b = x.encode()
            recs.append({'b': list(b) if len(b) < 5000 else [], 'n': len(b), 'r': o['r'] if o['r'] in ('ok', 'err', 'rep', 'syn') else 'no:' + o['r'],
                         'p': o.get('p', 0), 's': o.get('s', 0), 'e': o.get('e', 0), 'm': bool(o.get('m')), 'us': us[i] if us else 0})
        tot, prints = vlib.tlc_shards('Total', [recs], chk.pid + name, workers=vlib.NCPU, heap='12g', timeout=3000 if chk.thorough else 600)
        chk.add_tlc(tot, len(recs))
        for p in prints[0]:
            if p[0] != 'MISMATCH':
                raise vlib.ToolError('unexpected TLC output %r' % (p,))
            i = lo + p[1] - 1
            o = {k: v for k, v in obs[i].items() if k != 'ev'}
            chk.violation('input %r (%s): outcome %r, %d us' % (inputs[i][:200], keys[i] if keys else '%d bytes' % len(inputs[i].encode()), o, p[6]),
                          {'input': inputs[i][:100000], 'observed': o}, key=keys[i] if keys else 'total:' + inputs[i])


def check_C02(chk):
    su = Suite(chk)
    rng = random.Random(chk.seed + 2)
    T = chk.thorough
    f = scangen.focus(T)
    fam = [x for v in f.values() for x in v]
    ins = (fam if T else rng.sample(fam, min(len(fam), 20000))) + scangen.boundaries() + scangen.pairs() + chars(T)
    ins += scangen.randoms(rng, 200000 if T else 15000) + scangen.utf8_randoms(rng, 200000 if T else 15000) + scangen.structured(rng, 200000 if T else 15000)
    ins += tree.odd_inputs(rng, 300)
    cover = [x for x in su.cover() if su.realisable(x)]
    base = [su.layout(x, rng, rng.choice(['plain', 'mixed', 'space', 'tight']))[0] for x in (cover if T else rng.sample(cover, 4000))]
    base += [su.layout(su.mutate(x, rng), rng, 'mixed')[0] for x in (cover if T else rng.sample(cover, 3000))]
    ins += base + [mutate_text(x, rng) for x in base for _ in range(6 if T else 3)]
    # token soup
    for _ in range(60000 if T else 6000):
        ins.append(' '.join(su.text(su.any_terminal(rng), rng)[0] for _ in range(rng.randrange(1, 12))))
    ins = list(dict.fromkeys(ins))
    obs = su.parse(ins, timeout=240)
    chk.log(len(ins), 'inputs')
    judge(chk, ins, obs, 'a')
    cls = {}
    for o in obs:
        cls[o['r']] = cls.get(o['r'], 0) + 1
    chk.cov['outcomes'] = cls
    chk.cov['inputs'] = len(ins)
    if su.binary()[1]:
        certify.certify(chk, su.binary()[0])
        chk.log('tables certified')
    else:
        chk.assumptions.append('the table hook did not build on this tree; the tables were not certified')
    # long and deep inputs, on the stack of a main thread
    b = su.binary()[0]
    sizes = [1, 2, 3, 60, 63, 64, 65, 255, 256, 257, 1000, 5000] + ([2000, 3000, 4096] if T else [])
    deep = [(k, n) for k in FAMILIES for n in sizes]
    din = [FAMILIES[k](n) for k, n in deep]
    dob = vlib.harness(b, 'outcome', din, timeout=200)
    judge(chk, din, dob, 'b', keys=['deep:%s:%d' % d for d in deep])
    tin = [FAMILIES[k](n) for k, n in [(k, 3000) for k in FAMILIES]] + tree.big_inputs()
    tob = vlib.harness(b, 'time', tin, timeout=200)
    for o in tob:
        o.setdefault('us', 0)
    judge(chk, tin, tob, 'c', us=[o['us'] for o in tob])
    chk.cov['long_and_deep_inputs'] = len(din) + len(tin)
    chk.cov['slowest_us'] = max(o['us'] for o in tob)
    # flat ones: a second or so; quadratic behaviour would take minutes
    flat = ['words', 'operators', 'unclosed', 'unopened', 'slashes', 'quotes', 'dollars', 'strings', 'digits', 'long word', 'long string', 'long space', 'underscores', 'backslashes']
    fob = vlib.harness(b, 'time', [FAMILIES[k](400000) for k in flat], timeout=200)
    for o in fob:
        o.setdefault('us', 0)
    judge(chk, [FAMILIES[k](400000) for k in flat], fob, 'f', us=[o['us'] for o in fob], keys=['flat:' + k for k in flat])
    chk.cov['slowest_flat_us'] = max(o['us'] for o in fob)
    # the recorded finding: 100 000 levels
    probe = [('statements', DEEP), ('parentheses', DEEP), ('lists', DEEP), ('sums', DEEP)]
    pin = [FAMILIES[k](n) for k, n in probe]
    pob = [vlib.harness(b, 'outcome', [x], timeout=100)[0] for x in pin]
    judge(chk, pin, pob, 'd', keys=['deep:%s:%d' % d for d in probe])
