"""Large inputs: many tokens, long tokens, much trivia, deep nesting.  Cases are (input, tokens and comments)."""
import random


class Build:
    def __init__(self, su):
        self.su, self.out, self.toks, self.pos = su, [], [], 0

    def text(self, x, k=None):
        """a token or comment of symbol k, or white space (None)"""
        n = len(x.encode())
        if k is not None:
            self.toks.append([k, self.pos, self.pos + n])
        self.out.append(x)
        self.pos += n
        return self

    def names(self, xs, sep=' '):
        for t in xs:
            if isinstance(t, tuple):
                self.text(t[0], self.su.s.id[t[1]] if isinstance(t[1], str) else t[1])
            else:
                self.text(*self.su.text(t))
            if sep:
                self.text(sep)
        return self

    def case(self):
        return ''.join(self.out), self.toks


def trivia(n):
    """n bytes or so, in one piece or in many: lists of (text, symbol)"""
    return [[(' ' * n, None)], [('\n' * n, None)], [('/*' + 'x' * n + '*/', -2)], [('/*' + '\n' * n + '*/', -2)], [('--' + 'é' * (n // 2), -3), ('\n', None)],
            [('/**/', -2)] * (n // 4), [('--', -3), ('\n', None)] * (n // 3), [('/* ; */', -2), (' \n', None)] * (n // 9)]


def literals(n):
    return [("'" + 'x' * n + "'", 'SCONST'), ("'" + '\n;' * (n // 2) + "'", 'SCONST'), ('"' + '日' * (n // 3) + '"', 'IDENT'), ('a' * n, 'IDENT'), ('$$' + "'" * n + '$$', 'SCONST'),
            ('1' * n, 'FCONST'), ('1.' + '5' * n, 'FCONST'), ("b'" + '1' * n + "'", 'BCONST'), ("e'" + '\\n' * (n // 2) + "'", 'SCONST')]


TAILS = [['SELECT', 'ICONST'], [], ['SELECT', 'ICONST', "')'"], ['SELECT', "'('"], ['SELECT', 'ICONST', 'FROM', 'FROM'], ['CREATE', 'TABLE', 'IDENT', "'('", 'IDENT'], ['IDENT'],
         ['SELECT', 'ICONST', ('{', 0)], ['SELECT', ('U&"x"', -5), "','", ("U&'x'", -6), 'SELECT'], ['SELECT', 'ICONST', 'ORDER', 'BY', 'ICONST', 'NULLS_P', 'FIRST_P', "';'"], ['SELECT', 'NOT', 'BETWEEN']]


def statements(su, k, tails=TAILS):
    """k statements, then each of the tails"""
    out = []
    for body in [['SELECT', 'ICONST', "';'"], ["';'"]]:
        for tail in tails:
            b = Build(su)
            for _ in range(k):
                b.names(body)
            out.append(b.names(tail).case())
    return out


def long_prefix(su, n, rng=None, share=1.0):
    """something long, then each of the tails"""
    out = []
    pick = lambda: rng is None or rng.random() < share
    for tr in trivia(n) if n < 1000 else trivia(n)[:5]:
        for tail in TAILS:
            if not pick():
                continue
            b = Build(su)
            for x in tr:
                b.text(*x)
            out.append(b.names(tail).case())
            # between and behind the tail's tokens
            b = Build(su)
            for t in tail[:-1]:
                b.names([t])
            for x in tr:
                b.text(*x)
            out.append(b.names(tail[-1:]).case())
            b = Build(su).names(tail)
            for x in tr:
                b.text(*x)
            out.append(b.case())
    for lit in literals(n):
        for tail in TAILS:
            if not pick():
                continue
            out.append(Build(su).names(['SELECT', lit, "';'"] + tail).case())
            out.append(Build(su).names(['SELECT', 'ICONST', "','", lit] + tail).case())
    return out


NEST = {'parentheses': (['SELECT'], ["'('"], ['ICONST'], ["')'"]), 'subselects': ([], ["'('"], ['SELECT', 'ICONST'], ["')'"]), 'nots': (['SELECT'], ['NOT'], ['TRUE_P'], []),
        'negations': (['SELECT'], ["'-'"], ['ICONST'], []), 'cases': (['SELECT'], ['CASE', 'WHEN', 'ICONST', 'THEN'], ['ICONST'], ['END_P']),
        'arrays': (['SELECT', 'ARRAY'], ["'['"], ['ICONST'], ["']'"]), 'calls': (['SELECT'], ['IDENT', "'('"], ['ICONST'], ["')'"]),
        'rows': (['SELECT'], ["'('", 'ICONST', "','"], ['ICONST'], ["')'"]), 'joins': (['SELECT', 'ICONST', 'FROM'], ["'('", 'IDENT', 'CROSS', 'JOIN'], ['IDENT'], ["')'"]),
        'with': ([], ['WITH', 'IDENT', 'AS', "'('"], ['SELECT', 'ICONST'], ["')'", 'SELECT', 'ICONST']), 'sublinks': (['SELECT'], ["'('", 'SELECT'], ['ICONST'], ["')'"]),
        'lists': (['SELECT', 'ICONST'], ["','", 'ICONST'], [], []), 'sums': (['SELECT', 'ICONST'], ["'+'", 'ICONST'], [], []), 'unions': (['SELECT', 'ICONST'], ['UNION', 'SELECT', 'ICONST'], [], []),
        'values': (['VALUES', "'('", 'ICONST', "')'"], ["','", "'('", 'ICONST', "')'"], [], []), 'names': (['SELECT', 'IDENT'], ["'.'", 'IDENT'], [], []),
        'casts': (['SELECT', 'ICONST'], ['TYPECAST', 'INT_P'], [], []), 'semicolons': ([], ["';'"], [], []), 'conjunction': (['SELECT', 'ICONST'], ['AND', 'ICONST'], [], []),
        'assignments': (['UPDATE', 'IDENT', 'SET', 'IDENT', "'='", 'ICONST'], ["','", 'IDENT', "'='", 'ICONST'], [], []),
        'columns': (['CREATE', 'TABLE', 'IDENT', "'('", 'IDENT', 'INT_P'], ["','", 'IDENT', 'INT_P'], ["')'"], [])}


def nested(su, n, kinds=None, tails=True):
    """n levels or repetitions; complete, one closer short, one too many, with an error in the middle"""
    out = []
    for k in kinds or NEST:
        pre, o, mid, c = NEST[k]
        out.append(Build(su).names(pre + o * n + mid + c * n).case())
        if tails:
            out.append(Build(su).names(pre + o * n + mid + c * n + ['THEN']).case())
            out.append(Build(su).names(pre + o * n + mid + c * n + ["';'", 'SELECT']).case())
            if c:
                out.append(Build(su).names(pre + o * n + mid + c * (n - 1)).case())
                out.append(Build(su).names(pre + o * n + mid + c * (n + 1)).case())
                out.append(Build(su).names(pre + o * n + ['THEN']).case())
    return out


def trivia_script(su, k, per):
    """k statements with `per` comments each"""
    b = Build(su)
    for i in range(k):
        b.text('select', su.s.id['SELECT']).text(' ')
        for j in range(per):
            b.text('/**/', -2)
            if j % 2:
                b.text(' ')
        b.text('1', su.s.id['ICONST']).text(';', su.s.id["';'"]).text('\n')
    return b.case()


def scans(rng, thorough):
    """for the scanner: long tokens, and everything behind something long"""
    errs = ["'a", '"a', '""', "e'\\", "e'\\ud83d'", "e'\\u00'", "e'\\ude00'", '/* a', "b'1", "x'1", '$$ a', '1a', '1e+', '0x', '0o8', '1__0', '+' * 64, '1..', "e'\\U00110000'", '\x00', "'a'\n'b", '$1a', '$99999999999',
            "'\x00", 'select', "'a'\n'b'", 'not /**/ in', '$x$ $X$ $x$', '/* /* */ */ +-', 'é1.5e3', "U&'x'", '<>::=>']
    out = []
    for n in [300, 4200]:
        for tr in trivia(n):
            p = ''.join(x for x, _ in tr)
            out += [p + e for e in errs]
        for x, _ in literals(n):
            out += [x + ' ' + e for e in errs]
    if thorough:
        for n in [32768, 65535, 65536, 131072]:
            for p in [''.join(x for x, _ in tr) for tr in trivia(n)[:5]] + [x + ' ' for x, _ in literals(n)]:
                out += [p + e for e in rng.sample(errs, 7)] + [p[:-3]]
        return out
    for n in [33000, 65536]:
        long = [''.join(x for x, _ in rng.choice(trivia(n)[:4])), rng.choice(literals(n)[:8])[0] + ' ', ' ' * (n - 1), '/*' + 'x' * n + '*/']
        for p in long:
            out += [p + e for e in ['\x00', "e'\\u00'", rng.choice(errs)]]
        out.append(long[1][:-3])
    return out
