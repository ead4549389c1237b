"""C03, C04, C05: recorded scans against Scanner.tla."""
import random, re, os
import vlib, scangen, scantab, scale
from vlib import Check


def norm(k):
    m = re.fullmatch(r"'(.)'", k, re.S)
    return 'RAW%d' % ord(m.group(1)) if m else k


def rec(inp, o, cmp):
    r = {'b': list(inp.encode()), 'cmp': cmp, 'r': o['r'], 'm': o.get('m', ''), 'd': o.get('d', ''),
         'p': o.get('p', 0), 's': []}
    if cmp == 'tokens' and o['r'] == 'ok':
        r['s'] = [[norm(k), s, e] for k, s, e in o['s']]
    if cmp == 'errors':
        if o['r'] == 'syn':
            r['r'], r['m'] = 'ok', ''
    if r['r'] != 'rep':
        r['p'] = 0
    return r


def dedupe(inputs):
    return list(dict.fromkeys(inputs))


CHUNK = 150000


def validate(chk, inputs, observations, cmp, name):
    """trace validation; reports every mismatch"""
    n = 0
    for lo in range(0, len(inputs), CHUNK):
        ins, obs = inputs[lo:lo + CHUNK], observations[lo:lo + CHUNK]
        recs = [rec(i, o, cmp) for i, o in zip(ins, obs)]
        tot, prints = vlib.tlc_shards('ScanTrace', [recs], chk.pid + name, workers=vlib.NCPU, heap='12g', timeout=3000 if chk.thorough else 600)
        chk.add_tlc(tot, len(recs))
        for p in prints[0]:
            if p[0] == 'MISMATCH':
                i = p[1] - 1
                n += 1
                chk.violation('input %r: %s: specification %r, observed %r' % (ins[i][:200], p[2], p[3], p[4]),
                              {'input': ins[i], 'observed': obs[i], 'mismatch': p[2:]}, key='scan:' + ins[i])
            else:
                raise vlib.ToolError('unexpected TLC output %r' % (p,))
    for k in (0, len(inputs) // 3, len(inputs) // 2, len(inputs) - 1):
        chk.sample({'input': inputs[k], 'observed': observations[k]})
    return n


def observe(chk, inputs, want_tokens, binary, hooked):
    """observations of the scanner: through the hook, or through parse() when it cannot be built"""
    if want_tokens and hooked:
        return vlib.harness(binary, 'tokens', inputs, timeout=300), 'tokens'
    return vlib.harness(binary, 'parse', inputs, timeout=300), 'errors'


def mc(chk, alphabets, maxlen):
    """the specification's own properties over small alphabets"""
    for k, al in enumerate(alphabets):
        cfg = os.path.join(chk.work, 'mc%d.cfg' % k)
        with open(cfg, 'w') as h:
            h.write('SPECIFICATION Spec\nCONSTANTS Alphabet = {%s}\n MaxLen = %d\nINVARIANTS Ordered Tiled Final Trailing\n'
                    'PROPERTIES Monotone Terminates\n' % (', '.join(str(ord(c)) for c in al), maxlen))
        r = vlib.tlc('ScanMC', cfg=cfg, workers=vlib.NCPU, heap='8g', timeout=2400)
        chk.add_tlc(r)
    chk.cov['design_alphabets'] = [repr(a) for a in alphabets]
    chk.cov['design_max_length'] = maxlen


def pipeline_fallback(chk, inputs):
    import lang
    chk.log('hook unavailable: comparing trees and errors with the whole pipeline instead')
    chk.assumptions.append('the scanner hook did not build on this tree; token kinds were observed only through parse()')
    lang.pipeline(chk, inputs, 'tree')


def check_C03(chk):
    binary, hooked = vlib.build_harness('default')
    rng = random.Random(chk.seed)
    f = scangen.focus(chk.thorough)
    ins = [x for v in f.values() for x in v] + scangen.pairs() + scangen.boundaries()
    ins += scale.scans(rng, chk.thorough)
    ins += scangen.randoms(rng, 60000 if chk.thorough else 5000) + scangen.utf8_randoms(rng, 40000 if chk.thorough else 3000) + scangen.structured(rng, 80000 if chk.thorough else 12000)
    ins = dedupe(ins)
    chk.log(len(ins), 'inputs')
    obs, cmp = observe(chk, ins, True, binary, hooked)
    validate(chk, ins, obs, cmp, 'a')
    if not hooked:
        pipeline_fallback(chk, ins[::7])
    mc(chk, ["'\\$/*- a", "e'u&\"\n1", "0x1_.e+"] if not chk.thorough else ["'\\$/*- a", "e'u&\"\n1", "0x1_.e+", "$a1'\n-", "+-*/<=@"],
       5 if chk.thorough else 3)
    scantab.automata(chk, binary, scantab.pinned(), 'scan.l')
    chk.cov['inputs'] = len(ins)
    chk.cov['exhaustive_families'] = {k: len(v) for k, v in f.items()}
    chk.cov['tokens_observed'] = sum(len(o['s']) for o in obs if o['r'] == 'ok' and 's' in o)
    chk.cov['scan_errors_observed'] = sum(o['r'] in ('err', 'rep') for o in obs)
    chk.assumptions.append('Scanner.tla is a transcription of the scan.l rules of the pinned PostgreSQL release; byte values other '
                           'than the ones in the families are covered by class')


def check_C05(chk):
    binary, hooked = vlib.build_harness('default')
    rng = random.Random(chk.seed + 5)
    f = scangen.focus(chk.thorough)
    ins = [x for v in f.values() for x in v] + scangen.boundaries()
    ins += scangen.randoms(rng, 60000 if chk.thorough else 4000) + scangen.utf8_randoms(rng, 20000 if chk.thorough else 2000) + scangen.structured(rng, 60000 if chk.thorough else 8000)
    # errors after something, errors before a syntax error, several errors
    errs = ["'a", '"a', '""', "e'\\", "e'\\ud83d'", "e'\\u00'", "e'\\ude00'", "e'\\u0000'", '/* a', "b'1", "x'1", '$$ a', '1a', '1e+', '0x', '0o8', '0b2',
            '1__0', '+' * 64, '1.5e', '1..', 'u&"', "u&'", "e'\\U00110000'", '\x00', "'a'\n'b", '$1a', '1.a', '1_', '/*/*/**/*/', "'\x00", '""""""', '1.5e+x', '0x_', '0b1g', '@' * 63 + '-']
    pre = ['', 'select ', ') ) ', "'ok' ", '/* ok */ ', '-- ok\n', '日本 ', "select '日本' + ", ';;', 'a b c d ', '$x$ \' $x$ ', '"" ', '1a ', "'x", 'select 1 from ', '\x00 ']
    post = ['', ' ', " '", ' 1a', ' select', ' -- x', '\x00', ' ""', ' )', "\n'z'"]
    ins += scale.scans(rng, chk.thorough)
    fam = [p + e + q for p in pre for e in errs for q in post]
    ins = dedupe(ins + fam)
    obs, cmp = observe(chk, ins, False, binary, hooked)
    chk.log(len(ins), 'inputs', sum(o['r'] in ('err', 'rep') for o in obs), 'scan errors')
    validate(chk, ins, obs, cmp, 'a')
    chk.cov['inputs'] = len(ins)
    by = {}
    for o in obs:
        if o['r'] in ('err', 'rep'):
            by[o['m']] = by.get(o['m'], 0) + 1
    chk.cov['errors_by_message'] = by
    chk.cov['inputs_without_scan_error'] = sum(o['r'] in ('ok', 'syn') for o in obs)


def words(chk, rng):
    import json
    kw = [w for w, *_ in json.load(open(os.path.join(vlib.DATA, 'keywords.json')))]
    out = []
    deco = ['%s', '"%s"', '%s1', '%s_', '_%s', 'x%s', '%s$', 'é%s', '%sé', "'%s'", '$%s', '%s(', '.%s', '%s.%s', '%s "%s"', 'u&"%s"', '%s\u0301', '(%s)', '%s,%s', '-- %s\n', '/*%s*/', '$%s$%s$%s$', '%s\n%s', '%s\t', '%s+%s']
    for w in kw:
        vs = [w, w.upper(), w.capitalize(), ''.join(c.upper() if i % 2 else c for i, c in enumerate(w)), w[:-1] + w[-1].upper()]
        if chk.thorough and len(w) <= 8:
            vs += [''.join(c.upper() if m >> i & 1 else c for i, c in enumerate(w)) for m in range(2 ** len(w))]
        elif len(w) <= 4:
            vs += [''.join(c.upper() if m >> i & 1 else c for i, c in enumerate(w)) for m in range(2 ** len(w))]
        else:
            vs += [''.join(c.upper() if rng.random() < .5 else c for c in w) for _ in range(4)]
        out += vs
        for d in deco:
            out += [d.replace('%s', w), d.replace('%s', w.upper())]
        # one edit away
        for i in range(len(w)):
            out += [w[:i] + w[i + 1:], w[:i] + w[i] + w[i:], w[:i] + ' ' + w[i:]]
            if i + 1 < len(w):
                out.append(w[:i] + w[i + 1] + w[i] + w[i + 2:])
            c = w[i]
            sub = {'k': '\u212a', 's': '\u017f', 'i': '\u0131\u0130', 'a': '\xe5\u212b', '_': '-\u2014', 'o': '0\u043e', 'e': '\u0435', 'l': '1', 'c': '\u0441'}.get(c, '')
            for r in sub:
                out += [w[:i] + r + w[i + 1:], (w[:i] + r + w[i + 1:]).upper()]
            if chk.thorough:
                for r in 'abcdefghijklmnopqrstuvwxyz_0':
                    out.append(w[:i] + r + w[i + 1:])
            else:
                r = rng.choice('abcdefghijklmnopqrstuvwxyz_0')
                out.append(w[:i] + r + w[i + 1:])
    # all short words
    import itertools
    al = 'abcdefghijklmnopqrstuvwxyz'
    for n in (1, 2, 3):
        out += [''.join(x) for x in itertools.product(al, repeat=n)]
    for a, b in zip(kw, kw[1:]):
        out += [a + b, a + '_' + b, a + ' ' + b]
    return [x for x in dedupe(out) if x]


def check_C04(chk):
    binary, hooked = vlib.build_harness('default')
    rng = random.Random(chk.seed + 4)
    ins = words(chk, rng)
    obs, cmp = observe(chk, ins, True, binary, hooked)
    chk.log(len(ins), 'inputs')
    validate(chk, ins, obs, cmp, 'a')
    if not hooked:
        pipeline_fallback(chk, ins[::9])
    scantab.keywords(chk, binary)
    chk.cov['inputs'] = len(ins)
    kinds = {}
    for o in obs:
        for k, *_ in (o['s'] if o['r'] == 'ok' and 's' in o else []):
            kinds[k] = kinds.get(k, 0) + 1
    chk.cov['distinct_token_kinds_observed'] = len(kinds)
    chk.cov['identifiers_observed'] = kinds.get('IDENT', 0)
