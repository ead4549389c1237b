"""C16, C17: the parser generator run on grammars of our own, its tables compared with the automaton
Lalr.tla defines; and the committed tables with the automaton of the pinned grammar."""
import os, random, re
import vlib, lalr, toygen

# terminals of the scanner that need no filter, with a text
WORDS = ['ALL', 'AND', 'ANY', 'AS', 'ASC', 'CASE', 'CHECK', 'DESC', 'DO', 'ELSE', 'END_P', 'FROM', 'GROUP_P', 'IN_P', 'INTO', 'IS', 'JOIN', 'LIKE', 'LIMIT', 'ON', 'OR', 'ORDER',
         'SELECT', 'TABLE', 'THEN', 'TO', 'USING', 'WHEN', 'WHERE', 'WINDOW']
TEXT = {w: re.sub('_P$', '', w).lower() for w in WORDS}
TEXT.update({"'%s'" % c: c for c in '+-*/%^()[],;.<>=:'})
TEXT.update({'IDENT': 'x1', 'ICONST': '7', 'SCONST': "'s'", 'FCONST': '1.5', 'PARAM': '$1', 'TYPECAST': '::', 'LESS_EQUALS': '<=', 'Op': '@@', 'NOT_EQUALS': '<>'})
IDENT_OF = {'-': 'Minus', ',': 'Comma', ';': 'Semicolon', ':': 'Colon', '.': 'Dot', '(': 'LParen', ')': 'RParen', '[': 'LBracket', ']': 'RBracket', '*': 'Star', '/': 'Slash', '%': 'Percent',
            '^': 'Caret', '+': 'Plus', '<': 'Less', '=': 'Equals', '>': 'Greater', '$': 'Dollar'}
NTNAMES = ['stmt', 'expr', 'term', 'list', 'item', 'opt_a', 'opt_b', 'target', 'clause', 'body', 'tail', 'unit']
# no parse, panic, unknown symbol
ODD = 9


def kind_name(s):
    s = s.strip("'")
    return ''.join(IDENT_OF.get(c, c) for c in s)


def G(rules, levels=()):
    """A grammar from "lhs: a b %prec X | c" lines and "left 'x' 'y'" levels, lowest first."""
    rs = []
    for l in rules:
        lhs, rest = l.split(':', 1) if not l.startswith("'") else l
        for alt in re.split(r"\|(?!')", rest):
            w = alt.split()
            p = None
            if '%prec' in w:
                i = w.index('%prec')
                p = w[i + 1]
                del w[i:i + 2]
            rs.append({'lhs': lhs.strip(), 'rhs': w, 'prec': p})
    return {'rules': rs, 'levels': [(l.split()[0], l.split()[1:]) for l in levels]}


CURATED = [
    # operators of every kind
    G(["expr: expr '+' expr | expr '-' expr | expr '*' expr | expr '<' expr | expr '=' expr | '-' expr %prec UMINUS | expr '^' expr | '(' expr ')' | IDENT | ICONST"],
      ["left OR", "nonassoc '<' '='", "left '+' '-'", "left '*'", "left '^'", "right UMINUS"]),
    G(["expr: expr '=' expr | expr '+' expr | expr AND expr | IDENT"], ["right '='", "left AND", "right '+'"]),
    # same level, different operators; last terminal decides
    G(["expr: expr '+' expr | expr IS expr '-' expr | expr '*' expr IN_P expr | IDENT"], ["nonassoc IS", "left '+' '-'", "right '*' IN_P"]),
    G(["expr: expr '+' expr '-' expr | expr '*' expr | IDENT"], ["left '+'", "left '*'", "left '-'"]),
    G(["expr: expr '-' expr '+' expr | expr '*' expr | IDENT"], ["left '+'", "left '*'", "left '-'"]),
    # postfix and prefix
    G(["expr: expr IS | '-' expr | expr '+' expr | ANY expr | IDENT"], ["left ANY", "left '+'", "nonassoc IS", "right '-'"]),
    # the dangling else: shift, with and without levels
    G(["stmt: WHEN IDENT stmt | WHEN IDENT stmt ELSE stmt | IDENT"]),
    G(["stmt: WHEN IDENT stmt %prec THEN | WHEN IDENT stmt ELSE stmt | IDENT"], ["nonassoc THEN", "nonassoc ELSE"]),
    G(["stmt: WHEN IDENT stmt %prec THEN | WHEN IDENT stmt ELSE stmt | IDENT"], ["nonassoc ELSE", "nonassoc THEN"]),
    G(["stmt: WHEN IDENT stmt %prec THEN | WHEN IDENT stmt ELSE stmt | IDENT"], ["nonassoc ELSE THEN"]),
    # a rule or a token without a level
    G(["expr: expr '+' expr | expr '*' expr | IDENT"], ["left '*'"]),
    G(["expr: expr '+' expr | expr ALL expr %prec LIKE | expr LIKE expr | IDENT"], ["right '+'", "left LIKE"]),
    # LALR(1), not SLR(1)
    G(["stmt: target '=' expr | expr", "target: '*' expr | IDENT", "expr: target"]),
    G(["stmt: term AND | ALL term ALL | IDENT ALL | ALL IDENT AND", "term: IDENT"]),
    G(["stmt: item IDENT ANY | ALL item AND | IDENT AND", "item: IDENT"]),
    # nullable
    G(["stmt: opt_a opt_b IDENT tail", "opt_a: ALL |", "opt_b: ANY |", "tail: opt_b opt_a AS"]),
    G(["stmt: list", "list: list item |", "item: IDENT opt_a", "opt_a: '(' list ')' |"]),
    G(["stmt: opt_a", "opt_a: opt_b", "opt_b: | ALL"]),
    G(["stmt: SELECT opt_a opt_b opt_c", "opt_a: | ALL", "opt_b: | ANY opt_a", "opt_c: | AS opt_b"]),
    G(["stmt: ALL clause AND | ANY clause AS", "clause: opt_a opt_b", "opt_a: IDENT |", "opt_b: ICONST |"]),
    # recursion left, right, mutual
    G(["list: list ',' item | item", "item: IDENT | '(' list ')'"]),
    G(["list: item ',' list | item", "item: IDENT | '(' list ')'"]),
    G(["list: item | list item", "item: IDENT | '[' tail", "tail: ']' | item tail"]),
    G(["stmt: clause ';' stmt | clause", "clause: SELECT list | ", "list: IDENT | IDENT ',' list"]),
    # %prec on an empty production, several in one rule set
    G(["stmt: expr opt_a", "expr: expr '+' expr | IDENT", "opt_a: %prec ASC | '+' ICONST | ASC"], ["left '+'", "nonassoc ASC"]),
    G(["stmt: expr opt_a", "expr: expr '+' expr | IDENT", "opt_a: %prec ASC | '+' ICONST | ASC"], ["nonassoc ASC", "left '+'"]),
    # nonassoc that forbids everything in a state
    G(["stmt: expr '<' ALL", "expr: IDENT | IDENT '<' %prec '<' | expr '<' IDENT"], ["nonassoc '<'"]),
    G(["stmt: item '<'", "item: IDENT %prec '<' | IDENT '<' '<'"], ["nonassoc '<'"]),
    G(["stmt: term ALL | body ALL", "term: expr '<' %prec ASC", "body: expr '<' ASC", "expr: IDENT"], ["nonassoc ASC"]),
    # many look-aheads for one reduction next to few for another
    G(["stmt: expr '+' | expr '-' | expr '*' | expr '/' | expr ',' | term ';' | term ALL", "expr: IDENT ICONST", "term: IDENT SCONST"]),
    G(["stmt: expr | stmt ';' expr", "expr: term | expr '+' term | expr '-' term", "term: unit | term '*' unit", "unit: IDENT | '(' expr ')' | IDENT '(' list ')'", "list: expr | list ',' expr"]),
    # a start symbol that is also used inside, one production only, a single token
    G(["stmt: '(' stmt ')' | stmt '+' stmt | IDENT"], ["left '+'"]),
    G(["stmt: IDENT"]),
    G(["stmt:"]),
    G(["stmt: IDENT stmt | "]),
    # SQL-like
    G(["stmt: SELECT list from_clause where_clause", "list: item | list ',' item", "item: expr | expr AS IDENT | expr IDENT", "from_clause: FROM list |", "where_clause: WHERE expr |",
       "expr: expr OR expr | expr AND expr | expr '=' expr | expr '<' expr | expr '+' expr | expr IS ALL | '(' expr ')' | IDENT | ICONST"],
      ["left OR", "left AND", "nonassoc IS", "nonassoc '=' '<'", "nonassoc IDENT", "left '+'"]),
    G(["stmt: joined", "joined: IDENT | joined JOIN joined ON expr | joined CROSS_ joined | '(' joined ')'".replace('CROSS_', 'LIKE'), "expr: IDENT '=' IDENT"], ["left JOIN LIKE"]),
]


def random_grammar(rng, big=False):
    nt = rng.randint(2, 7 if big else 4)
    names = NTNAMES[:nt]
    pool = rng.sample(sorted(TEXT), rng.randint(3, 12 if big else 6))
    rules = []
    ops = rng.random() < .5
    for n in names:
        for _ in range(rng.choice([1, 2, 2, 3] if not big else [1, 2, 3, 4])):
            k = rng.choice([0, 1, 1, 2, 2, 3, 3, 4])
            w = [rng.choice(names) if rng.random() < .42 else rng.choice(pool) for _ in range(k)]
            rules.append({'lhs': n, 'rhs': w, 'prec': None})
        if rng.random() < .8:
            rules.append({'lhs': n, 'rhs': [rng.choice(pool)], 'prec': None})
        if ops and rng.random() < .6:
            for _ in range(rng.randint(1, 3)):
                rules.append({'lhs': n, 'rhs': [n, rng.choice(pool), n], 'prec': None})
    seen, out = set(), []
    for r in rules:
        k = (r['lhs'], tuple(r['rhs']))
        if k not in seen:
            seen.add(k)
            out.append(r)
    levels = []
    if rng.random() < .75:
        ts = rng.sample(pool, rng.randint(1, len(pool)))
        pseudo = [w for w in rng.sample(WORDS, 2) if w not in pool]
        ts += pseudo
        while ts:
            k = rng.randint(1, min(3, len(ts)))
            levels.append((rng.choice(['left', 'right', 'nonassoc']), ts[:k]))
            ts = ts[k:]
        known = [t for _, l in levels for t in l if not t.startswith("'")]
        for r in out:
            if known and rng.random() < .15:
                r['prec'] = rng.choice(known)
    rng.shuffle(out)
    # the start symbol first
    i = next(i for i, r in enumerate(out) if r['lhs'] == names[0])
    out.insert(0, out.pop(i))
    return {'rules': out, 'levels': levels}


class Gram:
    """A grammar with its numbering (terminals 1.., the end last, then non-terminals)."""

    def __init__(self, g):
        self.rules, self.levels = g['rules'], g['levels']
        self.nts = list(dict.fromkeys(r['lhs'] for r in self.rules))
        self.terms = sorted({s for r in self.rules for s in r['rhs'] if s not in self.nts} | {t for _, l in self.levels for t in l} | {r['prec'] for r in self.rules if r['prec']})
        self.prec = {t: (i + 1, a) for i, (a, l) in enumerate(self.levels) for t in l}
        self.num = {t: i + 1 for i, t in enumerate(self.terms)}
        self.end = len(self.terms) + 1
        self.nt = self.end
        for i, n in enumerate(self.nts):
            self.num[n] = self.nt + 1 + i

    def text(self):
        ls = ['%%%s %s' % (a, ' '.join(l)) for a, l in self.levels] + ['', '%%', '']
        for n in self.nts:
            alts = [r for r in self.rules if r['lhs'] == n]
            ls.append('%s:' % n)
            ls.append('\n\t|'.join('\t%s%s' % (' '.join(r['rhs']), ' %prec ' + r['prec'] if r['prec'] else '') for r in alts))
            ls.append('\t;\n')
        return '\n'.join(ls) + '\n%%\n'

    def ordered(self):
        return [r for n in self.nts for r in self.rules if r['lhs'] == n]

    def spec(self):
        """as Lalr.tla takes it"""
        return {'rules': [{'lhs': self.num[r['lhs']], 'rhs': [self.num[s] for s in r['rhs']],
                           'prec': self.num[r['prec']] if r['prec'] else next((self.num[s] for s in reversed(r['rhs']) if s not in self.nts), 0)} for r in self.ordered()],
                'nt': self.nt, 'end': self.end, 'start': self.num[self.rules[0]['lhs']],
                'level': [self.prec.get(t, (0, ''))[0] for t in self.terms] + [0], 'assoc': [self.prec.get(t, (0, ''))[1] for t in self.terms] + ['']}

    def usable(self, maxstates=90):
        """within the property: conflicts are shift/reduce only, everything is reachable and productive, no cycles"""
        prod, ch = set(), True
        while ch:
            ch = False
            for r in self.rules:
                if r['lhs'] not in prod and all(s not in self.nts or s in prod for s in r['rhs']):
                    prod.add(r['lhs'])
                    ch = True
        reach, todo = set(), [self.rules[0]['lhs']]
        while todo:
            n = todo.pop()
            if n not in reach:
                reach.add(n)
                todo += [s for r in self.rules if r['lhs'] == n for s in r['rhs'] if s in self.nts]
        used = {s for r in self.rules for s in r['rhs']}
        if prod != set(self.nts) or reach != prod or not all(s in self.nts or s in TEXT for s in used):
            return False
        # no A =>+ A
        null, ch = set(), True
        while ch:
            ch = False
            for r in self.rules:
                if r['lhs'] not in null and all(s in null for s in r['rhs']):
                    null.add(r['lhs'])
                    ch = True
        unit = {n: {r['rhs'][i] for r in self.rules if r['lhs'] == n for i in range(len(r['rhs'])) if r['rhs'][i] in self.nts and all(s in null for k, s in enumerate(r['rhs']) if k != i)} for n in self.nts}
        for n in self.nts:
            seen, todo = set(), list(unit[n])
            while todo:
                m = todo.pop()
                if m == n:
                    return False
                if m not in seen:
                    seen.add(m)
                    todo += unit[m]
        a = lalr.build({'rules': self.ordered(), 'prec': self.prec, 'start': self.rules[0]['lhs']})
        if len(a['kernels']) > maxstates:
            return False
        for st, la in enumerate(a['LA']):
            got = 0
            for ri, m in la.items():
                if m & got:
                    return False
                got |= m
            if (0, 1) in a['kernels'][st] and (got >> a['terms'].index(lalr.END)) & 1:
                return False
        # no run of reductions that never ends (hidden left recursion decided for the reduction)
        lens = [len(r[1]) for r in a['rules']]
        for q in range(len(a['kernels'])):
            for t in range(len(a['terms'])):
                st = [q]
                for _ in range(200):
                    x = a['actions'][st[-1]].get(t)
                    if x is None or x[0] != 'r' or lens[x[1]] >= len(st):
                        break
                    del st[len(st) - lens[x[1]]:]
                    st.append(a['gotos'][st[-1]][a['rules'][x[1]][0]])
                else:
                    return False
        self.auto = a
        return True

    def strings(self, rng, n):
        """token strings: all short ones, sentences of the grammar, and sentences with an error"""
        used = [t for t in self.terms if t in TEXT]
        out = [()] + [(t,) for t in used]
        two = [(a, b) for a in used for b in used]
        out += rng.sample(two, min(len(two), n // 6))
        short = self.shortest()
        for _ in range(n * 3):
            if len(out) >= n:
                break
            s = self.sentence(rng, short)
            if s is None or len(s) > 25:
                continue
            out.append(tuple(s))
            m = list(s)
            x = rng.random()
            k = rng.randrange(len(m) + 1)
            if x < .3 and m:
                del m[min(k, len(m) - 1)]
            elif x < .6 and used:
                m.insert(k, rng.choice(used))
            elif m and used:
                m[min(k, len(m) - 1)] = rng.choice(used)
            out.append(tuple(m))
            out.append(tuple(s[:k]))
        return list(dict.fromkeys(out))[:n]

    def shortest(self):
        size = {}
        ch = True
        while ch:
            ch = False
            for r in self.rules:
                if all(s not in self.nts or s in size for s in r['rhs']):
                    v = 1 + sum(size.get(s, 1) if s in self.nts else 1 for s in r['rhs'])
                    if v < size.get(r['lhs'], 10 ** 6):
                        size[r['lhs']] = v
                        ch = True
        return size

    def sentence(self, rng, size):
        out, todo, budget = [], [self.rules[0]['lhs']], rng.randint(3, 30)
        while todo:
            s = todo.pop()
            if s not in self.nts:
                out.append(s)
                continue
            alts = [r for r in self.rules if r['lhs'] == s]
            budget -= 1
            if budget <= 0:
                best = min(1 + sum(size[x] if x in self.nts else 1 for x in r['rhs']) for r in alts)
                alts = [r for r in alts if 1 + sum(size[x] if x in self.nts else 1 for x in r['rhs']) == best]
            todo += reversed(rng.choice(alts)['rhs'])
            if len(out) > 40:
                return None
        return out


def grammars(rng, count, big=False):
    out, seen = [], set()
    tried = 0
    while len(out) < count and tried < count * 400:
        tried += 1
        g = Gram(random_grammar(rng, big))
        if len(g.rules) < 3 or not g.usable(60 if big else 40):
            continue
        n = len(g.auto['kernels'])
        if n < (18 if big else 6):
            continue
        key = g.text()
        if key not in seen:
            seen.add(key)
            out.append(g)
    return out


def operator_grammar(rng):
    """an expression language: levels of several operators each, used in every way"""
    pool = [t for t in TEXT if t not in ('IDENT', "'('", "')'", "','")]
    rng.shuffle(pool)
    levels, rules = [], [{'lhs': 'expr', 'rhs': ['IDENT'], 'prec': None}]
    marks = [w for w in WORDS if w in pool][-3:]
    pool = [t for t in pool if t not in marks]
    add = lambda rhs, prec=None: rules.append({'lhs': 'expr', 'rhs': rhs, 'prec': prec})
    for _ in range(rng.randint(2, 5)):
        ops = [pool.pop() for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        levels.append((rng.choice(['left', 'right', 'nonassoc', 'left']), ops))
        for o in ops:
            k = rng.random()
            if k < .75:
                add(['expr', o, 'expr'])
            elif k < .85:
                add([o, 'expr'])
            elif k < .93:
                add(['expr', o])
            else:
                add(['expr', o, 'expr', pool.pop(), 'expr'], o)
    bins = [o for _, l in levels for o in l]
    for m in marks[:rng.randint(0, 2)]:
        levels.insert(rng.randrange(len(levels) + 1), (rng.choice(['left', 'right', 'nonassoc']), [m]))
        add([rng.choice(bins), 'expr'] if rng.random() < .5 else [m, 'expr', pool.pop()], m)
    if rng.random() < .5:
        add(["'('", 'expr', "')'"])
    if rng.random() < .3:
        rules.insert(0, {'lhs': 'list', 'rhs': ['expr'], 'prec': None})
        rules.insert(1, {'lhs': 'list', 'rhs': ['list', "','", 'expr'], 'prec': None})
    seen, out = set(), []
    for r in rules:
        k = (r['lhs'], tuple(r['rhs']))
        if k not in seen:
            seen.add(k)
            out.append(r)
    return {'rules': out, 'levels': levels}


def operator_grammars(rng, count):
    out = []
    for _ in range(count * 60):
        if len(out) == count:
            break
        g = Gram(operator_grammar(rng))
        if g.usable(60):
            out.append(g)
    return out


def string_text(w):
    """the text, and the byte offset of each token and of the end"""
    at, o = [], ''
    for t in w:
        if o:
            o += ' '
        at.append((len(o), len(o) + len(TEXT[t])))
        o += TEXT[t]
    return o, at + [(len(o), len(o))]


def unit(g, answers, strs, hooked):
    """What was observed of one grammar, in its numbering."""
    kinds, tables = answers[0], answers[1]
    of = {}
    for i, k in enumerate(kinds):
        of[i] = k
    mine = {kind_name(t): v for t, v in g.num.items()}
    mine['Dollarend'] = g.end
    num = lambda k: mine.get(of.get(k), 99)
    real = {'n': 0}
    if hooked and tables.get('n'):
        T = tables['t']
        of_t = {of[i]: i for i in range(T)}
        # the end of the input is what the parser uses as such
        if num(tables['end']) != g.end:
            real = {'n': -1}
        else:
            tcol = [of_t.get(kind_name(t), -1) for t in g.terms] + [tables['end']]
            of_n = {of[T + i]: i for i in range(tables['x']) if T + i < len(kinds)}
            xcol = [of_n.get(n, -1) for n in g.nts]
            others = [i for i in range(T) if i not in tcol]
            real = {'n': tables['n'], 'act': [[r[c] if c >= 0 else 12345 for c in tcol] for r in tables['act']], 'go': [[r[c] if c >= 0 else 12345 for c in xcol] for r in tables['go']],
                    'other': [[r[c] for r in tables['act']] for c in others],
                    'lhs': [num(T + l) for l, _ in tables['rules']], 'len': [n for _, n in tables['rules']]}
    out = []
    for w, o in zip(strs, answers[2:]):
        at = string_text(w)[1]
        if o['r'] == 'ok':
            r = [1]
            flat = []
            for e in o['t']:
                if e[0] == 1:
                    if of.get(e[1]) in ('Whitespace', 'C_COMMENT', 'SQL_COMMENT'):
                        continue
                    flat += [1, num(e[1])]
                else:
                    flat += [2, num(e[1]), e[2]]
            r = [1, flat]
        elif o['r'] == 'parse' and (o['s'], o['e']) in at:
            # an error at the end has the end's empty range
            k = at.index((o['s'], o['e'])) if (o['s'], o['e']) != at[-1] or not w else len(at) - 1
            r = [0, [k + 1]]
        else:
            r = [ODD, []]
        out.append({'w': [g.num[t] for t in w], 'r': r})
    return {'g': g.spec(), 'real': real, 'strs': out}


def generate(chk, gen, gs, label):
    """Run the generator on the grammars and build parsers of the results."""
    chk.log(label, len(gs), 'grammars')
    runs = gen.many('parser-generator', [g.text() for g in gs], 'gram.y')
    keep = []
    for g, (d, why) in zip(gs, runs):
        if d is None:
            chk.violation('the generator fails on a grammar: %s' % why, {'grammar': g.text(), 'why': why})
        else:
            keep.append((g, d))
    return keep


def observe(chk, gen, keep, rng, nstr, name):
    b, hooked, dead = toygen.toy_crates(gen, [(d, None) for _, d in keep], name)
    for k, why in dead.items():
        chk.violation('the generated parser does not compile: %s' % why, {'grammar': keep[k][0].text()})
    live = [k for k in range(len(keep)) if k not in dead]
    lines, strs = [], {}
    for k in live:
        strs[k] = keep[k][0].strings(rng, nstr)
        lines += ['%d\tkinds\t' % k, '%d\ttables\t' % k] + ['%d\tparse\t%s' % (k, string_text(w)[0].encode().hex()) for w in strs[k]]
    chk.log('parsers built (%s);' % ('tables are looked up' if hooked else 'no hooks'), len(lines) - 2 * len(live), 'token strings')
    ans = toygen.ask(b, lines) if live else []
    units, o = [], 0
    for k in live:
        n = len(strs[k]) + 2
        a = ans[o:o + n]
        o += n
        units.append((keep[k][0], unit(keep[k][0], a, strs[k], hooked), strs[k], a[2:]))
    return units, hooked


def decide(chk, units, name):
    shards = vlib.split(units, vlib.NCPU)
    tot, prints = vlib.tlc_shards('LalrMC', [[units[i][1] for i in s] for s in shards], chk.pid + name, heap='3g', timeout=850)
    chk.add_tlc(tot, len(units))
    states = 0
    for s, ps in zip(shards, prints):
        for p in ps:
            if p[0] == 'SIZE':
                states += p[2]
                continue
            g, u, strs, obs = units[s[p[1] - 1]]
            inv = {v: k for k, v in g.num.items()}
            inv[g.end] = '$end'
            n = lambda v: inv.get(v, v)
            if p[0] == 'CLASH':
                raise vlib.ToolError('a grammar outside the property was generated:\n' + g.text())
            if p[0] == 'BAD':
                chk.violation('after %s the tables differ from the automaton (symbol, automaton, tables): terminals %s, non-terminals %s' %
                              (' '.join(map(str, map(n, p[2]))) or 'nothing', [[n(x[0])] + x[1:] for x in p[3]][:6], [[n(x[0])] + x[1:] for x in p[4]][:6]),
                              {'grammar': g.text(), 'path': [n(x) for x in p[2]], 'terminals': p[3], 'nonterminals': p[4]})
            elif p[0] == 'RULES':
                chk.violation('the productions the parser reduces by are not those of the grammar', {'grammar': g.text(), 'lhs': p[2], 'len': p[3]})
            elif p[0] == 'PARSE':
                w = strs[p[2] - 1]
                chk.violation('%r: the parser gives %s, the automaton %s' % (string_text(w)[0], obs[p[2] - 1], p[4]),
                              {'grammar': g.text(), 'string': w, 'parser': obs[p[2] - 1], 'automaton': p[4]})
            else:
                raise vlib.ToolError('unexpected TLC output %r' % (p,))
    return states


def check_C16(chk):
    rng = random.Random(chk.seed * 100 + 16)
    with toygen.Generators() as gen:
        gs = []
        for c in CURATED:
            g = Gram(c)
            if not g.usable():
                raise vlib.ToolError('a curated grammar is outside the property:\n' + g.text())
            gs.append(g)
        gs += operator_grammars(rng, 100 if chk.thorough else 14) + grammars(rng, 400 if chk.thorough else 55)
        states = nstr = 0
        hooked = True
        for k in range(0, len(gs), 100):
            keep = generate(chk, gen, gs[k:k + 100], 'part %d:' % (k // 100))
            units, h = observe(chk, gen, keep, rng, 200 if chk.thorough else 70, 'toys%d' % k)
            hooked = hooked and h
            states += decide(chk, units, 'g%d' % k)
            nstr += sum(len(u[2]) for u in units)
            if k == 0 and units:
                chk.sample({'grammar': units[0][0].text()[:400], 'states': len(units[0][0].auto['kernels'])})
                chk.sample({'token string': ' '.join(units[0][2][-1]), 'outcome': units[0][1]['strs'][-1]['r']})
    chk.cov.update(grammars=len(gs), grammar_states=states, token_strings=nstr, tables_looked_up=hooked)
    chk.assumptions.append('grammars of up to 7 non-terminals, without reduce/reduce conflicts; every situation of each automaton is compared when the hook for table look-ups is available')


def real_tables(chk, gen):
    """The committed tables against the automaton of the pinned grammar (TableMC)."""
    b, hooked, dead = toygen.toy_crates(gen, [(None, None)], 'committed')
    if dead:
        raise vlib.ToolError('the crate does not build: %s' % dead)
    if not hooked:
        return None
    kinds, T = toygen.ask(b, ['0\tkinds\t', '0\ttables\t'])
    return tables_of(chk, kinds, T, 'the committed tables', 'r')


def tables_of(chk, kinds, T, label, name):
    from spec import Spec
    if 'r' in T:
        chk.violation('looking up %s: %s' % (label, T), T)
        return 0
    s = Spec()
    f = s.table_file(os.path.join(chk.work, 'tables.json'))
    names = [s.kind.get(k, 0) for k in kinds]
    names[T['end']] = s.end
    nt = T['t']
    col = {v: i for i, v in enumerate(names[:nt]) if v > 0}
    xcol = {v: i - nt for i, v in enumerate(names[nt:nt + T['x']], nt) if v > 0}
    act, go = T['act'], T['go']
    # the witness: rename states by walking both together
    m = {0: 0}
    todo = [0]
    while todo:
        q = todo.pop()
        for t, x in s.a['actions'][q].items():
            if x[0] == 's' and x[1] not in m and t + 1 in col:
                v = act[m[q]][col[t + 1]]
                if 0 < v < 32766 and v - 1 < T['n']:
                    m[x[1]] = v - 1
                    todo.append(x[1])
        for n, r in s.a['gotos'][q].items():
            if r not in m and s.id[n] in xcol:
                v = go[m[q]][xcol[s.id[n]]]
                if 0 <= v < T['n']:
                    m[r] = v
                    todo.append(r)
    N = len(s.a['kernels'])
    other = [i for i in range(nt) if names[i] <= 0 or names[i] > s.nterm]
    reached = set(m)
    inp = []
    for sh in vlib.split([q for q in range(N) if q in reached], vlib.NCPU):
        order = [sorted(reached)[i] for i in sh]
        part = []
        for q in order:
            a, g = act[m[q]], go[m[q]]
            part.append({'q': q + 1, 'act': [a[col[t]] if t in col else 12345 for t in range(1, s.nterm + 1)],
                         'go': [g[xcol[s.id[n]]] if s.id[n] in xcol else 12345 for n in s.nts], 'other': [a[i] for i in other]})
        inp.append({'map': [m.get(q, -7) for q in range(N)], 'part': part,
                    'rules': [[names[nt + l] if nt + l < len(names) else 0, n] for l, n in T['rules']]})
    tot, prints = vlib.tlc_shards('TableMC', inp, chk.pid + name, heap='3500m', timeout=800, env={'TABLES': f})
    chk.add_tlc(tot, len(reached))
    nm = lambda v: s.name.get(v, v)
    for ps in prints:
        for p in ps:
            if p[0] == 'BAD':
                q = p[1] - 1
                chk.violation('state %d of %s: wrong for the terminals %s, the non-terminals %s, unknown terminals %s' %
                              (m[q], label, [nm(x) for x in p[2][0]][:8], [nm(x) for x in p[2][1]][:8], p[2][2][:4]),
                              {'state': m[q], 'terminals': [nm(x) for x in p[2][0]], 'nonterminals': [nm(x) for x in p[2][1]]})
            else:
                raise vlib.ToolError('unexpected TLC output %r' % (p,))
    # states only reached by transitions that precedence removed
    chk.cov['states_of_the_automaton'] = N
    chk.cov['states_compared'] = len(reached)
    chk.cov['states_of_the_tables'] = T['n']
    chk.sample({'state': m[100], 'automaton state': 101, 'actions': len(s.a['actions'][100])})
    return len(reached) * (s.nterm + len(s.nts))


def check_C17(chk):
    rng = random.Random(chk.seed * 100 + 17)
    with toygen.Generators() as gen:
        n = real_tables(chk, gen)
        chk.log('committed tables:', n, 'look-ups compared')
        gs = [g for g in map(Gram, CURATED) if g.usable()][::2] if not chk.thorough else []
        gs += operator_grammars(rng, 30 if chk.thorough else 4) + grammars(rng, 300 if chk.thorough else 33, True)
        entries = nstr = 0
        hooked = True
        for k in range(0, len(gs), 100):
            keep = generate(chk, gen, gs[k:k + 100], 'part %d:' % (k // 100))
            units, h = observe(chk, gen, keep, rng, 120 if chk.thorough else 50, 'toys%d' % k)
            hooked = hooked and h
            decide(chk, units, 'g%d' % k)
            nstr += sum(len(u[2]) for u in units)
            entries += sum(len(g.auto['kernels']) * (g.nt + len(g.nts)) for g, *_ in units)
            if k == 0 and units:
                chk.sample({'grammar': units[-1][0].text()[:400], 'states': len(units[-1][0].auto['kernels'])})
    chk.cov.update(grammars=len(gs), committed_table_entries=n or 0, generated_table_entries=entries, token_strings=nstr, tables_looked_up=hooked)
    chk.assumptions.append('the automaton of the pinned grammar is the one tools/lalr.py builds; without the hook for table look-ups only the token strings decide')
