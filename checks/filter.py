"""C06: the two-token look-ahead filter."""
import itertools, random
import vlib, scangen
from pool import Suite
from spec import MERGE, LA_BASE, UNREAL
import tree

KEYS = ['FORMAT', 'NOT', 'NULLS_P', 'WITH', 'WITHOUT']
SEPS = [' ', '\n', '/*c*/', '--x\n', ' /* a /* time */ b */ ', '\n-- between\n--time\n', '\t/**//**/ --\r\n\f']


def combos(su, rng, thorough):
    out = []
    fol = [t for t in su.s.terms if t not in UNREAL and t not in LA_BASE and t != '$end']
    tx = [su.text(t)[0] for t in fol] + ['{', '}', '\\', 'U&"time"', "U&'time'", '"time"', "'time'", 'timex', 'time_', '$time$x$time$', 'tim', 'ti/**/me', 'e', 'é', '..']
    for k in KEYS:
        w = su.s.word_of[k]
        for v in (w, w.upper()):
            out += [v] + [v + s for s in SEPS] + ['a' + s + v for s in SEPS]
        for x in tx:
            for s in (SEPS if thorough else SEPS[:2] + SEPS[2:3] + [rng.choice(SEPS[3:])]):
                out.append(w + s + x)
            out.append(w.capitalize() + ' ' + x.upper())
            out.append('x ' + w + '\n/**/' + x + ' ' + x)
            out.append(x + ' ' + w)
    return out


def sequences(n):
    al = ['NOT', 'between', 'in', 'with', 'TIME', 'nulls', 'First', 'format', 'json', 'WITHOUT', '/*c*/', '--\n', 'U&"x"', "U&'x'", 'a', 'ordinality', ',', 'last', 'like', 'ilike', 'similar', 'not_la', 'with_la']
    out = []
    for k in range(1, n + 1):
        out += [' '.join(p) for p in itertools.product(al if k < 4 else al[:13], repeat=k)]
    return out


PAIRS = ['nulls first', 'nulls last', 'not in', 'not between', 'not like', 'not ilike', 'not similar', 'with time', 'with ordinality', 'without time', 'format json',
         'nulls a', 'not a', 'with a', 'without a', 'format a', 'U&"a"', "U&'a'", 'not not in', 'with with time', 'nulls nulls first', 'format', 'not', 'with']


def contexts(su, rng, thorough):
    """every terminal before, between and after the pairs, near and far"""
    out = []
    tx = [su.text(t)[0] for t in su.s.terms if t not in UNREAL and t not in LA_BASE and t != '$end'] + ['{', '\\', 'U&"b"', "U&'b'", '/*x*/', '--y\n']
    n = 0
    for x in tx:
        for p in (PAIRS if thorough else PAIRS[:11] + rng.sample(PAIRS[11:], 2)):
            f = ['%s %s', '%s a %s', '%s ; select %s', '; %s, 1 %s', '%s a b c d ( %s )', '%s\n/* c */ %s ; ' + p, '%s ' + p + ' , %s', '%s select * from t where x %s', '%s; commit; begin; %s; end']
            for y in (f if thorough else [f[n % len(f)], f[(n // 2) % len(f)]]):
                out.append(y % (x, p))
            n += 1
    for k in [1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025]:
        for u in ['U&"a"', "U&'a'"]:
            out += ['a ' * k + u, (u + ' , ') * k, ';' * k + u, '/**/' * min(k, 300) + u + ' a', '-- x\n' * min(k, 300) + u, '( ' * k + u + ' )']
        for p in PAIRS[:11]:
            w, f = p.split()
            out += ['a ' * k + p, w + ' /**/' * k + f, w + ' --\n' * k + ' ' + f, w + ' ' * k + f, w + ' /*' + 'x' * k + '*/ ' + f, '( ' * k + p + ' )' * k, (p + ' , ') * k, 'a ; ' * k + p]
    for k in [20000, 33000, 66000]:
        out += ['a ' * k + p for p in PAIRS[:11]]
        out += ['/*' + 'x' * k + '*/ ' + p for p in PAIRS[:11]]
        out += [p.replace(' ', ' /*' + 'x' * k + '*/ ') for p in PAIRS[:11]]
    return out


def check_C06(chk):
    su = Suite(chk)
    rng = random.Random(chk.seed + 6)
    b, hooked, _ = su.binary()
    ins = combos(su, rng, chk.thorough) + sequences(4 if chk.thorough else 3) + contexts(su, rng, chk.thorough)
    for _ in range(20000 if chk.thorough else 2000):
        ins.append(rng.choice(SEPS).join(su.text(su.any_terminal(rng), rng)[0] if rng.random() < .4 else rng.choice(
            ['not', 'with', 'time', 'without', 'nulls', 'first', 'last', 'format', 'json', 'in', 'like', 'ordinality', 'U&"a"', "U&'b'"]) for _ in range(rng.randrange(2, 9))))
    ins = list(dict.fromkeys(ins))
    if hooked:
        obs = vlib.harness(b, 'tokens', ins, timeout=300)
        extra = {}

        def num(k):
            n = su.s.tok_id(k)
            return n if n else extra.setdefault(k, 10001 + len(extra))
        recs, keep = [], []
        for x, o in zip(ins, obs):
            if o['r'] == 'ok':
                recs.append({'s': [[num(k), s, e] for k, s, e in o['s']], 'f': [[num(k), s, e] for k, s, e in o['f']]})
                keep.append(x)
        tot, prints = vlib.tlc_shards('FilterTrace', [recs], chk.pid, workers=vlib.NCPU, heap='12g', timeout=3000 if chk.thorough else 600, env={'TABLES': su.tables})
        chk.add_tlc(tot, len(recs))
        for p in prints[0]:
            if p[0] != 'MISMATCH':
                raise vlib.ToolError('unexpected TLC output %r' % (p,))
            x = keep[p[1] - 1]
            chk.violation('input %r: token %d reaches the parser as %s, specification %s' % (x[:300], p[2], su.show(p[4]), su.show(p[3])),
                          {'input': x, 'mismatch': p, 'scanned': recs[p[1] - 1]['s'], 'filtered': recs[p[1] - 1]['f']}, key='filter:' + x)
        chk.cov['token_lists'] = len(recs)
        las = {su.s.id[v]: v for v in LA_BASE}
        chk.cov['merged'] = {v: sum(1 for r in recs for f in r['f'] if f[0] == i) for i, v in las.items()}
        chk.cov['kept_plain'] = {k: sum(1 for r in recs for f in r['f'] if f[0] == su.s.id[k]) for k in KEYS}
        chk.sample({'input': keep[len(keep) // 2], 'filtered': recs[len(keep) // 2]['f']})
    else:
        chk.assumptions.append('the token hook did not build on this tree; merging was observed only through parse()')
    # through the public interface: sentences in which the filter decides, from bytes to tree
    names = set(KEYS) | set(LA_BASE) | {'IDENT', 'SCONST'}
    las = set(KEYS) | set(LA_BASE)
    sents = [x for x in su.cover() if su.realisable(x) and las & set(x)]
    rng.shuffle(sents)
    cases = [su.layout(x, rng, rng.choice(['plain', 'mixed', 'mixed'])) for x in sents[:None if chk.thorough else 1500]]
    for x in sents[:None if chk.thorough else 1200]:
        cases.append(su.layout(su.mutate(x, rng), rng, 'mixed'))
    for x in rng.sample([x for x in su.cover() if 'IDENT' in x or 'SCONST' in x], 300):
        tx = [('U&"d!0"', -5) if n == 'IDENT' and rng.random() < .6 else ("U&'x\\0041'", -6) if n == 'SCONST' and rng.random() < .6 else su.text(n) for n in x]
        cases.append(su.layout(x, rng, 'mixed', tx))
    cases = list({c[0]: c for c in cases}.values())
    if not hooked:
        short = [x for x in ins if len(x) < 400]
        cases += [(x, None) for x in rng.sample(short, min(len(short), 2500))] + [('select 1 ' + x, None) for x in rng.sample(short, min(len(short), 2500))]
    # given the tokens; and from bytes (the texts are the scanner's matter, the outcome the parser's)
    su.validate(cases, 'tree', 'a')
    chk.cov['parses'] = len(cases)
    # U&"..." UESCAPE 'c': PostgreSQL's filter takes the three tokens for one
    probes = ["SELECT U&'d!0061' UESCAPE '!'", "SELECT U&\"d!0061\" UESCAPE '!'", "SELECT U&'x' uescape '#' , 1"]
    for x, o in zip(probes, su.parse(probes)):
        if o['r'] != 'ok':
            chk.violation('input %r: the UESCAPE clause is not part of the string: %r' % (x, o), {'input': x, 'observed': o}, key='uescape:' + x)
