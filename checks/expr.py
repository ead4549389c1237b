"""C22: operator precedence and associativity."""
import itertools, random
import vlib
from pool import Suite
import ptrace

INFIX = {'or': 'OR', 'and': 'AND', 'isdistinct': ['IS DISTINCT FROM', 'is not distinct from'], 'lt': '<', 'gt': '>', 'eq': '=', 'le': '<=', 'ge': '>=', 'ne': ['<>', '!='],
         'like': 'LIKE', 'ilike': 'ILIKE', 'similar': 'SIMILAR TO', 'notlike': 'NOT LIKE', 'notilike': 'NOT ILIKE', 'notsimilar': 'NOT SIMILAR TO',
         'op': ['||', '@>', '~', '->>', '&&', '#', '|', '!~', '<->', '?', '=@', '*~'], 'operator': ['OPERATOR ( + )', 'OPERATOR ( x . = )', 'OPERATOR ( || )'],
         'plus': '+', 'minus': '-', 'times': '*', 'div': '/', 'mod': '%', 'power': '^', 'attimezone': 'AT TIME ZONE'}
POSTFIX = {'isnull': 'IS NULL', 'isnull2': 'ISNULL', 'notnull': 'NOTNULL', 'isnot': ['IS NOT NULL', 'IS TRUE', 'IS NOT FALSE', 'IS UNKNOWN', 'IS NOT UNKNOWN', 'IS FALSE'],
           'isdocument': ['IS DOCUMENT', 'IS NOT DOCUMENT'], 'isnormalized': ['IS NORMALIZED', 'IS NOT NFKC NORMALIZED'], 'isjson': ['IS JSON', 'IS JSON OBJECT', 'IS NOT JSON ARRAY'],
           'in': ['IN ( 1 , b )', 'IN ( SELECT 1 )'], 'notin': 'NOT IN ( 1 )', 'likeany': ['LIKE ANY ( b )', 'ILIKE ALL ( b )'], 'eqany': ['= ANY ( b )', '<> ALL ( SELECT 1 )', '< SOME ( c )'],
           'opall': ['|| ALL ( b )', 'OPERATOR ( = ) ANY ( c )'], 'plusany': ['+ ANY ( b )', '- ALL ( b )'], 'atlocal': 'AT LOCAL', 'collate': ['COLLATE x', 'COLLATE "C"'], 'cast': ['::int', ':: text', ':: double precision', ':: numeric ( 3 , 2 )']}
PREFIX = {'not': 'NOT', 'preop': ['~', '@', '!!', '|/'], 'preoperator': 'OPERATOR ( - )', 'preplus': '+', 'preminus': '-'}
ATOMS = ['a', '1', "'s'", 'f ( 1 )', 't . c', 'a [ 1 ]', '$1', 'NULL', 'true', 'CASE WHEN a THEN b END', 'ARRAY [ 1 , 2 ]', '( SELECT 1 )', 'CURRENT_DATE', 'CAST ( a AS int )', '1.5', 'COALESCE ( a , b )', 'EXISTS ( SELECT 1 )']
BETWEEN = {'between': ['BETWEEN', 'BETWEEN SYMMETRIC', 'BETWEEN ASYMMETRIC'], 'notbetween': ['NOT BETWEEN', 'NOT BETWEEN SYMMETRIC']}
HEAD = ['SELECT 1 WHERE', 'SELECT', 'SELECT 1 FROM t WHERE', 'UPDATE t SET a =', 'SELECT 1 GROUP BY x HAVING']


def toks(s):
    out = []
    for w in s.replace('::int', ':: int').split():
        out.append(w)
    return out


class Maker:
    def __init__(self, rng):
        self.rng = rng

    def pick(self, x):
        return x if isinstance(x, str) else self.rng.choice(x)

    def infix(self, n):
        return (n, self.pick(INFIX[n]))

    def post(self, n):
        return (n, self.pick(POSTFIX[n]))

    def pre(self, n):
        return (n, self.pick(PREFIX[n]))

    def atom(self, simple=False):
        return ('atom', 'a' if simple else self.rng.choice(ATOMS))

    def connect(self, n):
        """something between two operands"""
        r = self.rng
        if n in INFIX:
            return [self.infix(n)]
        if n in BETWEEN:
            return [(n, self.pick(BETWEEN[n])), self.atom(), ('and', 'AND')]
        if n == 'likeescape':
            return [self.infix(r.choice(['like', 'ilike', 'similar', 'notlike', 'notsimilar'])), self.atom(), ('escape', 'ESCAPE')]
        return [self.post(n)]


CONN = list(INFIX) + list(POSTFIX) + list(BETWEEN) + ['likeescape']


def chain(m, conns, pres):
    """operands (with prefix operators) and connectors"""
    out = []
    k = 0

    def operand():
        nonlocal k
        for p in pres[k] if k < len(pres) else ():
            out.append(m.pre(p))
        k += 1
        out.append(m.atom())
    operand()
    for c in conns:
        x = m.connect(c)
        out.extend(x)
        if c not in POSTFIX:
            operand()
    return out


def rand_expr(m, depth):
    r = m.rng
    out = []

    def operand(d):
        while r.random() < .25:
            out.append(m.pre(r.choice(list(PREFIX))))
        if d > 0 and r.random() < .3:
            out.append(('(', '('))
            expr(d - 1)
            out.append((')', ')'))
        else:
            out.append(m.atom())

    def expr(d):
        operand(d)
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            c = r.choice(CONN)
            if c in BETWEEN:
                out.append((c, m.pick(BETWEEN[c])))
                operand(d - 1)
                for _ in range(r.choice([0, 0, 1, 2])):
                    b = r.choice(['plus', 'times', 'op', 'lt', 'eq', 'isdistinct', 'power', 'cast', 'isdocument', 'operator', 'minus'])
                    out.append(m.infix(b) if b in INFIX else m.post(b))
                    if b in INFIX:
                        operand(d - 1)
                out.append(('and', 'AND'))
                operand(d)
            elif c == 'likeescape':
                out.append(m.infix(r.choice(['like', 'notilike', 'similar'])))
                operand(d)
                if r.random() < .5:
                    out.append(m.infix(r.choice(['plus', 'op', 'times'])))
                    operand(d)
                out.append(('escape', 'ESCAPE'))
                operand(d)
            else:
                out.extend(m.connect(c))
                if c not in POSTFIX:
                    operand(d)
    expr(depth)
    return out


def layout(items, head):
    """input, [start, end] of the expression's tokens (bytes), items with token counts"""
    out = head
    pos = []
    its = []
    for n, tx in items:
        w = toks(tx)
        for x in w:
            out += ' '
            pos.append((len(out), len(out) + len(x)))
            out += x
        its.append([n, len(w)])
    return out, pos, its


def observe(o, pos, ka, kb):
    start = {p[0]: k + 1 for k, p in enumerate(pos)}
    end = {p[1]: k + 1 for k, p in enumerate(pos)}
    ev = []
    if o['r'] == 'ok':
        st = []
        for x in o['ev']:
            if len(x) == 3:
                st.append(x[1:3])
            else:
                n = x[3]
                ch = st[len(st) - n:]
                del st[len(st) - n:]
                st.append([x[1], x[2]])
                if x[0] in (ka, kb) and n > 1:
                    tight = [c for c in ch]
                    if len(tight) > 1:
                        ev.append([1 if x[0] == ka else 2, start.get(x[1], 0), end.get(x[2], 0)])
    s = start.get(o['s'], 0) if o['r'] == 'syn' else 0
    if o['r'] == 'syn' and s == 0 and pos and o['s'] >= pos[-1][1]:
        s = len(pos) + 1
    return ev, s


def check_C22(chk):
    su = Suite(chk)
    rng = random.Random(chk.seed + 22)
    T = chk.thorough
    m = Maker(rng)
    exprs = []
    pres = [()] + [(p,) for p in PREFIX]
    for a in CONN:
        for p in pres:
            for q in pres:
                exprs.append(chain(m, [a], [p, q]))
        for b in CONN:
            exprs.append(chain(m, [a, b], []))
            for p in pres[1:]:
                for k in range(3):
                    exprs.append(chain(m, [a, b], [()] * k + [p]))
    trip = list(itertools.product(CONN, repeat=3))
    for c in (trip if T else rng.sample(trip, 3000)):
        exprs.append(chain(m, c, [rng.choice(pres) if rng.random() < .3 else () for _ in range(4)]))
    for p in itertools.product(PREFIX, repeat=3):
        exprs.append(chain(m, [rng.choice(CONN)], [p]))
    for _ in range(60000 if T else 6000):
        exprs.append(rand_expr(m, rng.choice([0, 1, 2, 3])))
    heads = [HEAD[0] if k % 3 else rng.choice(HEAD) for k in range(len(exprs))]
    laid = [layout(x, h) for x, h in zip(exprs, heads)]
    keep = {}
    for l in laid:
        keep.setdefault(l[0], l)
    laid = list(keep.values())
    obs = su.parse([l[0] for l in laid])
    kinds = su.binary()[2]
    raw = {v: k for k, v in kinds.items()}
    ka, kb = raw[su.s.id['a_expr']], raw[su.s.id['b_expr']]
    recs = []
    for (inp, pos, its), o in zip(laid, obs):
        ev, s = observe(o, pos, ka, kb)
        # applications that lie in what comes before the expression or inside an atom are none here
        recs.append({'items': its, 'r': o['r'], 's': s, 'ev': ev})
    chk.log(len(recs), 'expressions,', sum(r['r'] == 'ok' for r in recs), 'accepted')
    for lo in range(0, len(recs), 60000):
        part = recs[lo:lo + 60000]
        tot, prints = vlib.tlc_shards('Expr', [part], chk.pid, workers=vlib.NCPU, heap='12g', timeout=3000 if T else 700)
        chk.add_tlc(tot, len(part))
        for p in prints[0]:
            if p[0] != 'MISMATCH':
                raise vlib.ToolError('unexpected TLC output %r' % (p,))
            k = lo + p[1] - 1
            chk.violation('%r: at item %d: %s: specification %s, observed %s' % (laid[k][0], p[2], p[3], p[4], p[5]),
                          {'input': laid[k][0], 'items': laid[k][2], 'observed': recs[k], 'mismatch': p}, key='expr:' + laid[k][0])
    chk.cov['expressions'] = len(recs)
    chk.cov['accepted'] = sum(r['r'] == 'ok' for r in recs)
    chk.cov['rejected'] = sum(r['r'] == 'syn' for r in recs)
    chk.cov['connectors'] = len(CONN)
    chk.cov['connector_pairs'] = len(CONN) ** 2
    chk.sample({'input': laid[len(laid) // 2][0], 'applications': recs[len(laid) // 2]['ev']})
    chk.sample({'input': laid[-1][0], 'applications': recs[-1]['ev']})
