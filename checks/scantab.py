"""What the scanner is made of, decided for all inputs: its automata and regular expressions against
the meaning of scan.l's patterns (PatternMC, RegexMC), its keyword list against the pinned one."""
import json, os
import vlib

PINNED = os.path.join(vlib.DATA, 'scan.json')
NOHOOK = 'the scanner hook did not build on this tree: its automata were only observed through scans'


def text(s):
    return list(s.encode('latin-1'))


def lower(chk, binary):
    """The scanner's parts through the hook, or None."""
    r = vlib.harness(binary, 'scanner', ['-'], lines=True)[0]
    if r.get('r') == 'nohook':
        chk.assumptions.append(NOHOOK)
        return None
    if r.get('r') != 'ok':
        chk.violation('reading the scanner: %s' % r, r)
        return None
    return r


def pinned():
    return json.load(open(PINNED))


def read_source(path):
    """What scan.l says, read by FlexFile.tla."""
    _, prints = vlib.tlc_shards('FlexRead', [list(open(path, 'rb').read())], 'flexread', heap='6g', timeout=300)
    S = lambda x: bytes(x).decode('latin-1')
    rules, head = {}, None
    for p in prints[0]:
        if p[0] == 'HEAD':
            head = p
        elif p[0] == 'RULE':
            rules[p[1]] = [[S(x) for x in p[2]], S(p[3]), p[4] - 1]
    return {'states': [S(x) for x in head[1]], 'defs': [[S(a), S(b)] for a, b in head[2]], 'rules': [rules[k] for k in sorted(rules)]}


def classes(rows):
    """Bytes that no state tells apart, and the table over them."""
    cols, cls = {}, []
    for b in range(256):
        c = tuple(r[b] for r in rows)
        cls.append(cols.setdefault(c, len(cols)))
    rep = [cls.index(k) for k in range(len(cols))]
    return cls, [[r[b] for b in rep] for r in rows]


def automata(chk, binary, src, what, who='the scanner'):
    """Each start condition's automaton against the patterns of src, over all byte strings."""
    r = lower(chk, binary)
    if r is None:
        return
    D = [[text(n), text(d)] for n, d in src['defs']]
    have = {a['name']: a for a in r['automata']}
    units, names = [], []
    own = [o for _, _, o in src['rules']]        # rules with the action "|" are the rule that has the action
    act = lambda a: own[a] if 0 <= a < len(own) else a
    for s in src['states']:
        if s not in have:
            chk.violation('%s has no automaton for start condition %s' % (who, s), {'condition': s})
            continue
        cls, nxt = classes(have[s]['next'])
        units.append({'defs': D, 'pats': [{'id': o, 'text': text(p)} for st, p, o in src['rules'] if s in st],
                      'cls': cls, 'next': nxt, 'acc': [act(a) for a in have[s]['acc']], 'strs': [], 'ver': []})
        names.append(s)
    tot, prints = vlib.tlc_shards('PatternMC', [[u] for u in units], chk.pid + 'st', timeout=600)
    chk.add_tlc(tot, len(units))
    for s, ps in zip(names, prints):
        bad = [p for p in ps if p[0] == 'BAD']
        for p in sorted(bad, key=lambda p: len(p[4]))[:3]:
            rule = lambda k: 'no rule' if k < 0 else 'rule %d (%s)' % (k, src['rules'][k][1]) if k < len(src['rules']) else 'rule %d' % k
            chk.violation('%s in start condition %s: after %r the automaton takes %s, %s takes %s' % (who, s, bytes(p[4]), rule(p[2]), what, rule(p[3])),
                          {'condition': s, 'string': list(p[4]), 'automaton': p[2], 'expected': p[3]})
    chk.cov['automata of ' + who] = '%d automata, %d states, against %s over all byte strings (product explored to the end)' % (
        len(units), sum(len(u['acc']) for u in units), what)


def regexes(chk, binary, src=None, who='the scanner'):
    """Each rule of the regex engine against the pattern it stands for, over all byte strings."""
    r = lower(chk, binary)
    if r is None:
        return
    src = src or pinned()
    D = [[text(n), text(d)] for n, d in src['defs']]
    units, names = [], []
    for s in src['states']:
        want = [p for st, p, _ in src['rules'] if s in st]
        have = [x for x in r['rules'] if x[0] == s]
        if len(want) != len(have) or [x[1] for x in have] != ['%s%d' % (s, k + 1) for k in range(len(have))]:
            chk.assumptions.append('the rules of start condition %s are not in the order of scan.l; they were only observed through scans' % s)
            continue
        for p, (_, name, t, eof) in zip(want, have):
            units.append({'defs': D, 'pat': text(p), 'regex': text(t), 'eof': eof})
            names.append((name, p, t))
    parts = vlib.split(list(range(len(units))), vlib.NCPU)
    tot, prints = vlib.tlc_shards('RegexMC', [[units[i] for i in part] for part in parts], chk.pid + 'rx', timeout=600)
    chk.add_tlc(tot, len(units))
    unread = 0
    for part, ps in zip(parts, prints):
        for p in ps:
            name, pat, t = names[part[p[1] - 1]]
            if p[0] == 'UNREAD':
                unread += 1
            elif p[0] == 'EOF':
                chk.violation('%s, rule %s (%s): the end of the input' % (who, name, pat), {'rule': name, 'regex': t})
            elif p[0] == 'BAD':
                chk.violation('%s, rule %s: after %r the pattern %s %s, the regular expression %s does not agree' % (
                    who, name, bytes(p[4]), pat, 'matches' if p[2] else 'matches at the end of the input' if p[3] else 'does not match', t),
                    {'rule': name, 'string': list(p[4]), 'pattern': pat, 'regex': t})
    chk.cov['regular expressions of ' + who] = '%d rules against their patterns over all byte strings; %d outside of the syntax Regex.tla reads' % (len(units) - unread, unread)


def keywords(chk, binary, who='the scanner'):
    r = lower(chk, binary)
    if r is None:
        return
    want = [[w, t] for w, t, *_ in json.load(open(os.path.join(vlib.DATA, 'keywords.json')))]
    tot, prints = vlib.tlc_shards('Keywords', [{'have': r['keywords'], 'want': want}], chk.pid + 'kw', timeout=120)
    chk.add_tlc(tot, len(want))
    for p in prints[0]:
        if p[0] in ('WRONG', 'MISSING'):
            chk.violation('%s %s keyword %s (%s)' % (who, 'has a' if p[0] == 'WRONG' else 'has no', p[1][0], p[1][1]), {'keyword': p[1]})
    chk.cov['keyword list of ' + who] = '%d words, compared with the pinned list' % len(r['keywords'])
