"""C15: the automata built for pattern lists have the meaning Pattern.tla gives the patterns."""
import itertools, json, os, random, re, subprocess
import vlib

CRATE = os.path.join(vlib.VERIF, 'harness-auto')
META = set('|()[]{}*+?."\\<>^$/')


# ---------------------------------------------------------------- generating patterns
def lit(c, rng=None):
    """One byte (1..255) written outside a class."""
    forms = []
    if 33 <= c <= 126 and chr(c) not in META:
        forms += [chr(c)] * 4
    if 33 <= c <= 126 and not chr(c).isalnum():
        forms += ['\\' + chr(c)] * 2
    short = {8: '\\b', 9: '\\t', 10: '\\n', 11: '\\v', 12: '\\f', 13: '\\r'}
    if c in short:
        forms += [short[c]] * 3
    forms += ['\\x%02x' % c, '\\%03o' % c, '\\x%02X' % c]
    return rng.choice(forms) if rng else forms[0]


def member(c, rng):
    forms = []
    if 33 <= c <= 126 and chr(c) not in '\\]^-["':
        forms += [chr(c)] * 4
    if 33 <= c <= 126 and not chr(c).isalnum():
        forms += ['\\' + chr(c)]
    short = {8: '\\b', 9: '\\t', 10: '\\n', 11: '\\v', 12: '\\f', 13: '\\r'}
    if c in short:
        forms += [short[c]] * 2
    forms += ['\\x%02X' % c, '\\%03o' % c]
    return rng.choice(forms)


ALPHA = [97, 98, 99, 48, 49, 45, 93, 34, 10, 95, 255, 128, 42, 92, 32, 39, 70]


def klass(rng):
    neg = rng.random() < .35
    out = []
    for _ in range(rng.randint(1, 3)):
        x = rng.random()
        if x < .5:
            out.append(member(rng.choice(ALPHA), rng))
        elif x < .9:
            a = rng.choice([97, 65, 48, 128, 1, 40, 95, 9])
            b = min(255, a + rng.choice([0, 1, 2, 5, 25, 127]))
            out.append(member(a, rng) + '-' + member(b, rng))
        else:
            out.append(rng.choice(['\\-', '\\]', '\\\\', '\\"', '"', '*', '.', '(', '|', '{', '$']))
    if rng.random() < .1:
        out.append('-')
    if rng.random() < .05 and not neg:
        out.insert(0, '-')
    return '[' + ('^' if neg else '') + ''.join(out) + ']'


def quoted(rng):
    return '"' + ''.join(rng.choice('ab*+.|()[]{}?-/:=<>0 ') for _ in range(rng.randint(1, 3))) + '"'


def regex(rng, depth, refs, top=False):
    x = rng.random()
    if depth == 0 or x < .25:
        y = rng.random()
        if refs and y < .25:
            return '{%s}' % rng.choice(refs), 'atom'
        if y < .45:
            return klass(rng), 'atom'
        if y < .55:
            return quoted(rng), 'atom'
        if y < .6:
            return '.', 'atom'
        return lit(rng.choice(ALPHA[:4] * 3 + ALPHA), rng), 'atom'
    if x < .5:
        parts = []
        for _ in range(rng.randint(2, 3)):
            s, k = regex(rng, depth - 1, refs)
            parts.append('(%s)' % s if k == 'alt' else s)
        return ''.join(parts), 'cat'
    if x < .7:
        parts = [regex(rng, depth - 1, refs)[0] for _ in range(rng.randint(2, 3))]
        if rng.random() < .1 and not top:
            parts.append('')
        return '|'.join(parts), 'alt'
    s, k = regex(rng, depth - 1, refs)
    if k != 'atom' or rng.random() < .2:
        s = '(%s)' % s
    y = rng.random()
    if y < .6:
        post = rng.choice('*+?')
    elif y < .8:
        post = '{%d}' % rng.randint(1, 3)
    else:
        lo = rng.randint(0, 2)
        post = '{%d,%d}' % (lo, max(1, lo + rng.randint(0, 2)))
    return s + post, 'atom'


def strings(rng, pats, n):
    """Byte strings near the language: pieces of the pattern texts and of the alphabet."""
    out = []
    for _ in range(n):
        s = []
        p = rng.choice(pats) if pats else ''
        for _ in range(rng.randint(0, 5)):
            s.append(ord(rng.choice(p)) if p and rng.random() < .5 and ord(rng.choice(p)) < 256 else rng.choice(ALPHA))
        out.append([c for c in s if c])
    return out


def jobs(chk):
    rng = random.Random(chk.seed * 7919 + 15)
    out = []           # (defs, [(states, pattern)], strings)

    def single(p):
        out.append(([], [([0], p)], strings(rng, [p], 2)))
    # every text of up to four symbols over a small alphabet that is a pattern
    seen = set()
    for n in range(1, 6 if chk.thorough else 5):
        for t in itertools.product('ab|()*+?', repeat=n):
            p = ''.join(t)
            if wellformed(p) and p not in seen:
                seen.add(p)
                single(p)
    # every byte, in every way of writing it, alone and in classes
    for c in range(1, 256):
        r = random.Random(c)
        single(lit(c, r) + '[' + member(c, r) + ']' + '[^' + member(c, r) + ']')
    for c in range(1, 256, 1 if chk.thorough else 5):
        for w in ('\\x%02x' % c, '\\x%02X' % c, '\\%03o' % c):
            single('%s[%s-\\xff]1' % (w, w))
    for w in ('\\x5g', '\\x9', '\\1', '\\7', '\\07', '\\078', '\\101', '\\1019', '\\x41f', '[\\x41f]', '[\\1018]', '\\x4a\\x4B', '[\\t\\n\\v\\f\\r\\b]', '\\b\\t\\n\\v\\f\\r'):
        single(w)
    for a in ('a', '(ab)', '[ab]', '"ab"', '.', '(a|b)', '\\x61', '(a*)', '(a?b)', '(a|)'):
        for post in ['*', '+', '?'] + ['{%d}' % k for k in (1, 2, 3)] + ['{%d,%d}' % (i, j) for i in range(4) for j in range(max(1, i), 6)]:
            single(a + post)
            single('b' + a + post + 'b')
            if post[0] != '{':
                for p2 in ('*', '+', '?', '{2}', '{1,2}'):
                    single(a + post + p2)
    # end of input
    for ps in (['<<EOF>>', 'a'], ['a', '<<EOF>>'], ['[^a]*', '<<EOF>>'], ['<<EOF>>', '[^a]+'], ['a<<EOF>>', 'a'], ['a', 'a<<EOF>>', 'ab'], ['.', '<<EOF>>']):
        out.append(([], [([0], p) for p in ps], strings(rng, ps, 6)))
    # random lists with definitions, start conditions and overlaps
    for _ in range(20000 if chk.thorough else 3000):
        refs, defs = [], []
        for k in range(rng.randint(0, 3)):
            d, _ = regex(rng, rng.randint(0, 2), refs, True)
            defs.append(('n%s%d' % (rng.choice(['', 'x_', 'Q']), k), d))
            refs.append(defs[-1][0])
        if rng.random() < .3:
            rng.shuffle(defs)
        conds = rng.choice([[0], [0], [0, 1], [0, 1, 2], [0, 2], [1, 3]])
        pats = []
        for k in range(rng.randint(1, 5)):
            st = sorted(rng.sample(conds, rng.randint(1, len(conds))))
            x = rng.random()
            if x < .12:
                p = '<<EOF>>'
            elif x < .3 and pats:
                p = rng.choice(pats)[1]          # overlap on purpose
                if rng.random() < .6:
                    p = p + rng.choice(['a', '|b', '.']) if p != '<<EOF>>' else p
            else:
                p, _ = regex(rng, rng.randint(1, 3), refs, True)
            if rng.random() < .2:
                st = st[::-1]
            pats.append((st, p))
        out.append((defs, pats, strings(rng, [p for _, p in pats] + [d for _, d in defs], 6)))
    # keyword-like lists: the same word by several patterns
    for k in range(600 if chk.thorough else 60):
        ws = [''.join(rng.choice('ab') for _ in range(rng.randint(1, 4))) for _ in range(4)]
        ps = ws + ['[a-z]+', '[a-z]*b', '.+']
        rng.shuffle(ps)
        out.append(([], [([0], p) for p in ps], [[ord(c) for c in w] for w in ws]))
    return out


def wellformed(p):
    """Texts over ab|()*+? that are patterns (not empty, every postfix follows an atom)."""
    if not re.fullmatch(r'[ab|()*+?]+', p) or p[0] in '*+?|':
        return False
    if re.search(r'[(|][*+?)|]', p) or re.search(r'\|$', p) or '()' in p:
        return False
    d = 0
    for c in p:
        d += (c == '(') - (c == ')')
        if d < 0:
            return False
    return d == 0


def shipped(chk):
    """The definitions of scan.l, and its patterns by start condition."""
    path = os.path.join(vlib.REPO, 'crates/lexer-generator/resources/scan.l')
    defs, conds, rules = [], ['INITIAL'], []
    head, body = re.split(r'(?m)^%%.*\n', open(path).read())[:2]
    head = re.sub(r'(?ms)^%\{.*?^%\}', '', head)
    for line in head.splitlines():
        m = re.match(r'%x\s+(\w+)', line)
        if m:
            conds.append(m.group(1))
        m = re.match(r'([A-Za-z_]\w*)\s+(\S.*?)\s*$', line)
        if m:
            defs.append((m.group(1), m.group(2)))
    depth, scope = 0, ['INITIAL']
    for line in body.splitlines():
        if depth == 0:
            m = re.match(r'<([\w,]+)>\{\s*$', line)
            if m:
                scope = m.group(1).split(',')
                continue
            if line.startswith('}'):
                scope = ['INITIAL']
                continue
            m = re.match(r'(?:<([\w,]+)>)?(<<EOF>>|\S+)(.*)', line)
            if m and not line[0].isspace():
                rules.append((m.group(1).split(',') if m.group(1) else scope, m.group(2)))
                line = m.group(3)
        depth += line.count('{') - line.count('}')
    return defs, conds, rules


def run_jobs(binary, js):
    lines = []
    for defs, pats, strs in js:
        f = []
        for n, d in defs:
            f += ['D', n, d.encode('latin-1').hex()]
        for st, p in pats:
            f += ['P', ','.join(map(str, st)), p.encode('latin-1').hex()]
        for s in strs:
            f += ['S', bytes(s).hex()]
        lines.append('\t'.join(f))
    return vlib.harness(binary, 'jobs', lines, timeout=240, lines=True)


def units(js, recs):
    """One unit per job and start condition, for PatternMC."""
    us, bad = [], []
    for k, ((defs, pats, strs), r) in enumerate(zip(js, recs)):
        if r['r'] != 'ok':
            bad.append((k, r))
            continue
        D = [[list(n.encode()), list(d.encode('latin-1'))] for n, d in defs]
        conds = sorted({s for st, _ in pats for s in st})
        for c in conds:
            if c >= len(r['dfa']):
                bad.append((k, {'r': 'no automaton for start condition %d' % c}))
                continue
            a = r['dfa'][c]
            us.append((k, c, {'defs': D, 'pats': [{'id': i, 'text': list(p.encode('latin-1'))} for i, (st, p) in enumerate(pats) if c in st],
                              'cls': a['cls'], 'next': a['next'], 'acc': a['acc'], 'strs': strs, 'ver': a['ver']}))
    return us, bad


def check_C15(chk):
    binary, _ = vlib.build_harness('auto', crate=CRATE)
    js = jobs(chk)
    # every definition of the shipped scanner, as a pattern of its own and all together
    defs, conds, rules = shipped(chk)
    for n, d in defs:
        js.append((defs, [([0], '{%s}' % n)], []))
    for k in range(0, len(defs), 6):
        js.append((defs, [([0], '{%s}' % n) for n, _ in defs[k:k + 6]], []))
    js.append((defs, [([conds.index(c) for c in cs], p) for cs, p in rules], []))
    chk.log('%d pattern lists' % len(js))
    recs = run_jobs(binary, js)
    us, bad = units(js, recs)
    for k, r in bad:
        chk.violation('the pattern compiler failed (%s) on %r' % (r.get('r'), js[k][:2]), {'job': js[k], 'result': r})
    order = sorted(range(len(us)), key=lambda i: -sum(len(p['text']) + 3 * len(us[i][2]['acc']) for p in us[i][2]['pats']))
    idx = vlib.split(order, vlib.NCPU * (4 if chk.thorough else 1))
    shards = [[us[order[i]][2] for i in part] for part in idx]
    back = [[order[i] for i in part] for part in idx]
    r, prints = vlib.tlc_shards('PatternMC', shards, 'C15', timeout=850)
    chk.add_tlc(r, len(us))
    seen = set()
    for b, ps in zip(back, prints):
        for p in ps:
            if p[0] not in ('BAD', 'VERDICT'):
                continue
            k, c, _ = us[b[p[1] - 1]]
            if p[0] == 'BAD' and (k, c) in seen:
                continue
            seen.add((k, c))
            d, pats, _ = js[k]
            s = bytes(p[4])
            chk.violation('%s: after %r the automaton reports rule %s, the patterns say %s; start condition %d of %r with %r' % (
                'automaton' if p[0] == 'BAD' else 'match', s, p[2], p[3], c, pats, d), {'string': list(p[4]), 'patterns': pats, 'definitions': d, 'condition': c, 'reported': p[2], 'expected': p[3]})
    chk.sample({'patterns': js[-40][1], 'definitions': js[-40][0]})
    chk.cov.update(pattern_lists=len(js), automata=len(us), strings='all byte strings (product explored to the end) for each automaton')
    chk.assumptions += ['Quoted texts with escapes, {n,} and NUL bytes are not among the supported pattern syntax.']
