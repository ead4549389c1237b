"""Sentences and layouts for the parser checks."""
import os, random
import vlib, ptrace
from spec import Spec, LA_BASE, UNREAL
from sentgen import Gen, TEXTS, BIG

WSPACE = [' ', ' ', '\n', '\t', '\r\n', '  ', ' \n ', '\f', '\v ', '\n\n']
COMMENT = [('/*c*/', -2), ('/* a /* b */ é */', -2), ('-- x', -3), ('--', -3), ('/**/', -2), ('-- 日本 \' "', -3), ("/*'*/", -2), ('/*;*/', -2), ('--;', -3)]
TIGHT = set('(),;[]')


class Suite:
    def __init__(self, chk):
        self.chk = chk
        self.s = Spec()
        self.g = Gen(self.s)
        self.tables = self.s.table_file(os.path.join(chk.work, 'tables.json'))
        self.bins = {}
        self._cover = None

    def binary(self, variant='default'):
        if variant not in self.bins:
            b, hooked = vlib.build_harness(variant)
            kinds = {k: self.s.kind.get(v, -99) for k, v in vlib.kind_names(b).items()}
            self.bins[variant] = (b, hooked, kinds)
        return self.bins[variant]

    def parse(self, inputs, variant='default', mode='parse', timeout=300):
        b, _, _ = self.binary(variant)
        return vlib.harness(b, mode, inputs, timeout=timeout)

    def cover(self):
        if self._cover is None:
            self._cover = self.g.cover()
        return self._cover

    # -------- texts --------
    def text(self, t, rng=None):
        """text and scanned symbol of a terminal"""
        if t in LA_BASE:
            t = LA_BASE[t][0]
        if t.startswith("'"):
            return t[1], self.s.id[t]
        if t in TEXTS:
            x = TEXTS[t][0] if rng is None else rng.choice(TEXTS[t])
            return x, (-5 if x[:3] == 'U&"' else -6 if x[:3] == "U&'" else self.s.id[t])
        w = self.s.word_of[t]
        if rng is not None:
            k = rng.random()
            if k > .75:
                w = w.upper()
            elif k > .5:
                w = ''.join(c.upper() if rng.random() < .5 else c for c in w)
        return w, self.s.id[t]

    def separator(self, rng, style, prev, nxt):
        """list of (text, symbol or 0 for white space) between two token texts (None at the ends)"""
        tight = prev is None or nxt is None or prev in TIGHT or nxt in TIGHT
        joined = prev is not None and nxt is not None and prev[-1:] == "'" and nxt[:1] == "'"
        if style == 'plain':
            return [(' ', 0)] if prev is not None and nxt is not None else []
        if style == 'tight':
            return [] if tight else [(' ', 0)]
        if style == 'space':
            ws = [w for w in WSPACE if '\n' not in w and '\r' not in w] if joined else WSPACE
            n = rng.choice([0, 1, 1, 2]) if tight else rng.choice([1, 1, 2])
            return [(rng.choice(ws), 0) for _ in range(n)]
        # mixed: white space and comments
        out = [] if tight and rng.random() < .3 else [(' ', 0)]
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            if rng.random() < .5:
                w = rng.choice(WSPACE)
                if joined and not any(k for _, k in out):
                    w = ' '
                out.append((w, 0))
            else:
                if not out and prev is not None and prev not in TIGHT:
                    out.append((' ', 0))
                c, k = rng.choice(COMMENT)
                out.append((c, k))
                if k == -3:
                    out.append(('\n', 0))
        return out

    def layout(self, names, rng=None, style='plain', texts=None):
        """input text and its tokens and comments [[symbol, start, end]]"""
        tx = texts or [self.text(n, rng) for n in names]
        out, pos, toks = [], 0, []

        def put(x, k):
            nonlocal pos
            n = len(x.encode())
            if k != 0:
                toks.append([k, pos, pos + n])
            out.append(x)
            pos += n
        for i in range(len(tx) + 1):
            a = tx[i - 1][0] if i > 0 else None
            b = tx[i][0] if i < len(tx) else None
            for x, k in self.separator(rng, style, a, b):
                put(x, k)
            if i < len(tx):
                x, k = tx[i]
                n = len(x.encode())
                toks.append([k if k else 0, pos, pos + n])
                out.append(x)
                pos += n
        return ''.join(out), toks

    # -------- sentences --------
    def statements(self):
        return [r[1][0] for r in self.s.rules if r[0] == 'stmt' and r[1]]

    def random_sentence(self, rng, budget=None):
        g = self.g
        k = rng.random()
        if k < .75:
            x = rng.choice(self.statements())
            return g.random_yield(x, rng, budget or rng.choice([3, 5, 8, 12, 20]))
        if k < .9:
            return g.random_yield('parse_toplevel', rng, budget or 12)
        return ['SELECT'] + g.random_yield('a_expr', rng, budget or rng.choice([4, 8, 14]))

    def realisable(self, names):
        return not any(n in UNREAL for n in names)

    def mutate(self, names, rng):
        x = list(names)
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.random()
            i = rng.randrange(len(x) + 1)
            t = self.any_terminal(rng)
            if k < .25 and x:
                del x[min(i, len(x) - 1)]
            elif k < .5:
                x.insert(i, t)
            elif k < .7 and x:
                x[min(i, len(x) - 1)] = t
            elif k < .8:
                x = x[:i]
            elif k < .9 and len(x) > 1:
                j = rng.randrange(len(x))
                i = min(i, len(x) - 1)
                x[i], x[j] = x[j], x[i]
            elif x:
                j = rng.randrange(len(x))
                x.insert(i, x[j])
        return x

    def any_terminal(self, rng):
        while True:
            t = rng.choice(self.s.terms)
            if t not in UNREAL and t != '$end':
                return t

    def records(self, cases, observations, mode, variant='default'):
        kinds = self.binary(variant)[2]
        return [ptrace.record(tk, inp, mode, o, kinds) for (inp, tk), o in zip(cases, observations)]

    def validate(self, cases, mode, name, variant='default', obs=None, workers=None, keyprefix='parse:'):
        """cases: (input, toks or None); records real parses and lets TLC decide; reports violations"""
        chk = self.chk
        bad_total = 0
        obs = obs if obs is not None else self.parse([c[0] for c in cases], variant)
        for lo in range(0, len(cases), 60000):
            cs, os_ = cases[lo:lo + 60000], obs[lo:lo + 60000]
            recs = self.records(cs, os_, mode, variant)
            tot, bad = ptrace.run(recs, self.tables, chk.pid + name, heap='16g', timeout=3000 if chk.thorough else 700, workers=workers)
            chk.add_tlc(tot, len(recs))
            for k in sorted(bad):
                m = bad[k]
                chk.violation('input %r: token %s: %s: specification %s, observed %s' % (cs[k][0][:300], m[0], m[1], self.show(m[2]), self.show(m[3])),
                              {'input': cs[k][0], 'observed': os_[k], 'mismatch': m, 'mode': mode, 'variant': variant},
                              key=keyprefix + cs[k][0])
            bad_total += len(bad)
        for k in (0, len(cases) // 2, len(cases) - 1):
            if cases:
                o = dict(obs[k])
                if 'ev' in o:
                    o = {'r': o['r'], 'tree_events': len(o['ev'])}
                chk.sample({'input': cases[k][0], 'observed': o})
        return bad_total

    def show(self, x):
        if isinstance(x, list) and x and isinstance(x[0], list):
            return '[' + ', '.join(self.show(y) for y in x) + ']'
        if isinstance(x, list) and x and isinstance(x[0], int) and x[0] in self.s.name:
            return '%s%s' % (self.s.name[x[0]], x[1:])
        if isinstance(x, int) and x in self.s.name:
            return self.s.name[x]
        return repr(x)
