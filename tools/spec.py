"""Python view of the specification's data: the pinned grammar, its automaton, the symbol
numbers, and the table file the TLA+ modules load."""
import json, os, sys, functools
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lalr, vlib
from extract import PUNCT

ACCEPT = 1000000
SPECIAL = {'Whitespace': -1, 'C_COMMENT': -2, 'SQL_COMMENT': -3, 'Root': -4, 'UIDENT': -5, 'USCONST': -6}
FILTER_SYMS = ['FORMAT', 'JSON', 'FORMAT_LA', 'NOT', 'BETWEEN', 'IN_P', 'LIKE', 'ILIKE', 'SIMILAR', 'NOT_LA', 'NULLS_P',
               'FIRST_P', 'LAST_P', 'NULLS_LA', 'WITH', 'TIME', 'ORDINALITY', 'WITH_LA', 'WITHOUT', 'WITHOUT_LA',
               'IDENT', 'SCONST']
MERGE = {'FORMAT': ({'JSON'}, 'FORMAT_LA'), 'NOT': ({'BETWEEN', 'IN_P', 'LIKE', 'ILIKE', 'SIMILAR'}, 'NOT_LA'),
         'NULLS_P': ({'FIRST_P', 'LAST_P'}, 'NULLS_LA'), 'WITH': ({'TIME', 'ORDINALITY'}, 'WITH_LA'),
         'WITHOUT': ({'TIME'}, 'WITHOUT_LA')}
LA_BASE = {v: (k, sorted(f)) for k, (f, v) in MERGE.items()}
UNREAL = {'MODE_TYPE_NAME', 'MODE_PLPGSQL_EXPR', 'MODE_PLPGSQL_ASSIGN1', 'MODE_PLPGSQL_ASSIGN2',
          'MODE_PLPGSQL_ASSIGN3'}


def load_grammar():
    g = json.load(open(os.path.join(vlib.DATA, 'grammar.json')))
    g['prec'] = {k: tuple(v) for k, v in g['prec'].items()}
    return g


class Spec:
    def __init__(self):
        self.g = load_grammar()
        a = self.a = lalr.build(self.g)
        assert not a['conflicts']
        self.terms, self.nts = a['terms'], a['nts']
        self.nterm = len(self.terms)
        self.id = {t: i + 1 for i, t in enumerate(self.terms)}
        self.id.update({n: self.nterm + 1 + i for i, n in enumerate(self.nts)})
        self.name = {v: k for k, v in self.id.items()}
        self.end = self.id['$end']
        self.rules = a['rules']
        self.kw = json.load(open(os.path.join(vlib.DATA, 'keywords.json')))
        self.word_of = {t: w for w, t, c, l in self.kw}
        self.token_of_word = {w: t for w, t, c, l in self.kw}
        # SyntaxKind name -> symbol number
        self.kind = dict(SPECIAL)
        for s, i in self.id.items():
            if s.startswith("'"):
                self.kind[PUNCT[s[1]]] = i
            else:
                self.kind[s] = i
        self.ntset = set(self.nts)

    # symbol number of a scanned token kind as the hook (or the scanner spec) names it
    def tok_id(self, k):
        if k in SPECIAL:
            return SPECIAL[k]
        if k.startswith('RAW'):
            k = "'%s'" % chr(int(k[3:])) if k[3:].isdigit() else k
        return self.id.get(k, 0)

    def table_file(self, path):
        a = self.a
        rows, rowof, gotos, gotoof = {}, [], {}, []
        for row in a['actions']:
            d = [0] * self.nterm
            for t, x in row.items():
                d[t] = x[1] + 1 if x[0] == 's' else -x[1] if x[0] == 'r' else ACCEPT
            rowof.append(rows.setdefault(tuple(d), len(rows)) + 1)
        for row in a['gotos']:
            d = [0] * len(self.nts)
            for n, s in row.items():
                d[self.id[n] - self.nterm - 1] = s + 1
            gotoof.append(gotos.setdefault(tuple(d), len(gotos)) + 1)
        tokid = {'RAW%d' % b: self.id.get("'%s'" % chr(b), 0) for b in range(256)}
        tokid.update({t: self.id.get(t, 0) for w, t, *_ in self.kw})
        tokid.update({t: self.id[t] for t in self.terms if not t.startswith("'") and t != '$end'})
        tokid.update({k: SPECIAL[k] for k in ('C_COMMENT', 'SQL_COMMENT', 'UIDENT', 'USCONST')})
        for k in ('IDENT', 'SCONST', 'BCONST', 'XCONST', 'ICONST', 'FCONST', 'PARAM', 'Op', 'TYPECAST', 'DOT_DOT', 'COLON_EQUALS', 'EQUALS_GREATER', 'LESS_EQUALS', 'GREATER_EQUALS', 'NOT_EQUALS'):
            tokid.setdefault(k, 0)
        json.dump({'nterm': self.nterm, 'tokid': tokid, 'sym': {s: self.id[s] for s in FILTER_SYMS}, 'rows': list(rows), 'rowof': rowof,
                   'gotos': list(gotos), 'gotoof': gotoof,
                   'rules': [[self.id[l], len(r)] for l, r, _ in self.rules[1:]]}, open(path, 'w'), separators=(',', ':'))
        return path

    # ---- simulation (used to steer generation and to measure coverage, not to judge) ----
    @functools.cached_property
    def act(self):
        return [{t + 1: (x[1] if x[0] == 's' else -x[1] if x[0] == 'r' else ACCEPT) for t, x in row.items()}
                for row in self.a['actions']]

    def filter(self, ids):
        """terminal numbers after look-ahead merging (no comments)"""
        out = list(ids)
        for i in range(len(out) - 1):
            n = self.name.get(ids[i])
            if n in MERGE and self.name.get(ids[i + 1]) in MERGE[n][0]:
                out[i] = self.id[MERGE[n][1]]
        return [self.id['IDENT'] if x == -5 else self.id['SCONST'] if x == -6 else x for x in out]

    def feed(self, stack, t, visit=None):
        """reductions on look-ahead t, then the shift; returns 'shift', 'accept' or 'error'"""
        act, gotos = self.act, self.a['gotos']
        while True:
            x = act[stack[-1]].get(t)
            if visit is not None:
                visit(stack[-1], t, x)
            if x is None:
                return 'error'
            if x == ACCEPT:
                return 'accept'
            if x >= 0:
                stack.append(x)
                return 'shift'
            l, r, _ = self.rules[-x]
            if len(r):
                del stack[-len(r):]
            stack.append(gotos[stack[-1]][l])

    def run(self, ids, visit=None):
        """index of the offending token, or None if accepted"""
        st = [0]
        for i, t in enumerate(list(ids) + [self.end]):
            x = self.feed(st, t, visit)
            if x == 'error':
                return i
        return None
