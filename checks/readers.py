"""C19: the readers of grammar files and scanner files.  Files of our own in the format of gram.y and
scan.l go through the generators; what the files say is decided by Yacc.tla and FlexFile.tla, and
what the generated parser or scanner does by LalrMC and FlexMC."""
import os, random, re
import vlib, toygen, lalrgen
from lalrgen import Gram, CURATED

# ------------------------------------------------------------------- grammar files
CODE = ['$$ = NULL;', '$$ = makeNode($1, @2);', '$$ = list_make1($1); $$->x = 3;', 'if (x) { y(); } else { z(); }', '$$ = cons($1, $3); | x : y ;', 'for (;;) { { } }',
        '$$ = makeFuncCall(SystemFuncName("timezone"), list_make2($5, $1), COERCE_SQL_SYNTAX, @2);', 'n->op = \'+\';', 'n->name = "a;b|c";', '/* nothing | here ; */', '// foo : bar ;',
        '%prec', '$<ival>$ = 5;', "x = '\\'';", 'y = "\\"";', 's = "100%";']
# braces that do not count
BRACES = ['x = "{";', "c = '}';", '/* } */', '// {', "c = '{'; s = \"}}\"; /* {{{ */", 's = "\\"}";']
WORDY = ['optional', 'see below', 'foo: bar | baz ;', '{ not code }', "it's", '"quoted', '%prec NOTHING', 'a } b', "'+' '-'", '%left FOO BAR', '%% not the mark', '* * *', 'x /* y', '// z']


def comment(rng, kind=None):
    w = ' '.join(rng.choice(WORDY) for _ in range(rng.randint(0, 3)))
    k = kind or rng.choice(['block', 'block', 'multi', 'line'])
    if k == 'line':
        return '// ' + w + '\n'
    if k == 'multi':
        return '/*' + rng.choice(['', ' ', '*']) + '\n * ' + '\n * '.join(w.split(' ')) + '\n ' + rng.choice(['', '*']) + '*/'
    return rng.choice(['/* %s */', '/*%s*/', '/** %s **/']) % w


def action(rng):
    parts = [rng.choice(CODE + BRACES) for _ in range(rng.randint(0, 3))]
    nl = any(p.startswith('//') for p in parts) or rng.random() < .5
    sep = '\n\t\t\t\t\t' if nl else ' '
    return '{' + sep + sep.join(parts) + sep + '}'


def gap(rng, noise):
    """between two symbols of the rules section"""
    if rng.random() < noise:
        c = rng.choice([' ', '\n', '\t']) + comment(rng)
        return c if c.endswith('\n') else c + rng.choice([' ', '\n\t\t', ''])
    return rng.choice([' ', ' ', ' ', '  ', '\t', '\n\t\t\t', ' \n '])


PROLOG = '''%{

/*#define YYDEBUG 1*/
/*-------------------------------------------------------------------------
 *
 * gram.y
 *	  %% rules: are : not | here ;
 *-------------------------------------------------------------------------
 */
#include "postgres.h"

/* Location tracking support --- simpler than bison's default */
#define YYLLOC_DEFAULT(Current, Rhs, N) \\
	do { \\
		if ((N) > 0) \\
			(Current) = (Rhs)[1]; \\
	} while (0)

static RawStmt *makeRawStmt(Node *stmt, int stmt_location);
static char quote = '"';
%}

%pure-parser
%expect 0
%name-prefix="base_yy"
%locations

%parse-param {core_yyscan_t yyscanner}
%lex-param   {core_yyscan_t yyscanner}

%union
{
	core_YYSTYPE core_yystype;
	/* these fields must match core_YYSTYPE: */
	int			ival;
	char	   *str;
}

'''
EPILOG = '''
/*
 * The signature of this function is required by bison.
 */
static void
base_yyerror(YYLTYPE *yylloc, core_yyscan_t yyscanner, const char *msg)
{
	stmt: FROM WHERE ;
%left OTHER
	parser_yyerror(msg);
}
'''


def render_yacc(g, rng, noise, wrap=.2):
    """A text for the grammar g (a Gram) with layout, comments and actions."""
    o = []
    if rng.random() < .7:
        o.append(PROLOG)
    elif rng.random() < .5:
        o.append(comment(rng, 'multi') + '\n')
    words = [t for t in g.terms if not t.startswith("'")]
    if rng.random() < .8:
        ns = list(g.nts)
        rng.shuffle(ns)
        cut = rng.randint(1, len(ns))
        o.append('%%type <node>\t%s\n' % ' '.join(ns[:cut]))
        if ns[cut:]:
            o.append('%%type <%s> %s\n\t\t%s\n' % (rng.choice(['list', 'str']), ns[cut], ' '.join(ns[cut + 1:]) or ns[cut]))
    if words and rng.random() < .8:
        if rng.random() < .5:
            o.append('\n' + comment(rng, 'multi') + '\n')
        o.append('%%token <str>\t%s\n' % ' '.join(words[:3]))
        if words[3:]:
            o.append('%%token <keyword> %s\n\n\t%s\n' % (words[3], ' '.join(words[4:]) or words[3]))
    o.append('\n')
    for a, l in g.levels:
        if rng.random() < noise:
            o.append(comment(rng, rng.choice(['block', 'multi', 'line'])).rstrip('\n') + '\n')
        s = '%%%s%s' % (a, rng.choice([' ', '\t', '\t\t', '  ']))
        for i, t in enumerate(l):
            s += t + ('' if i + 1 == len(l) else rng.choice(['\n\t\t\t', '\n  ', ' \n\t', '\n ']) if rng.random() < wrap else rng.choice([' ', '\t', '  ', ' ']))
        if rng.random() < noise:
            s += rng.choice(['\t', ' ']) + comment(rng, rng.choice(['block', 'block', 'line', 'multi'])).rstrip('\n')
        elif rng.random() < .2:
            s += rng.choice([' ', '\t\t'])
        o.append(s + '\n')
        if rng.random() < .15:
            o.append('\n')
    o.append('\n%%\n' if rng.random() < .8 else '\n%% ' + '\n')
    for n in g.nts:
        alts = [r for r in g.rules if r['lhs'] == n]
        # one left-hand side, possibly in several rules
        groups = [alts]
        if len(alts) > 1 and rng.random() < .2 and n == g.nts[-1]:
            k = rng.randint(1, len(alts) - 1)
            groups = [alts[:k], alts[k:]]
        for al in groups:
            if rng.random() < noise:
                o.append('\n' + comment(rng).rstrip('\n') + '\n')
            s = n + rng.choice([':', ' :', ':\t', '\n\t:', ': '])
            for i, r in enumerate(al):
                if i:
                    s += rng.choice(['\n\t|', '\n\t\t\t| ', ' | ', '|', '\n|'])
                for t in r['rhs']:
                    s += gap(rng, noise / 2) + t
                if not r['rhs'] and rng.random() < .5:
                    s += rng.choice([' /* EMPTY */', '\t/*EMPTY*/', ' // empty\n'])
                p = ' %prec ' + r['prec'] if r['prec'] else ''
                if p and rng.random() < .3:
                    p = '\n\t\t\t%prec\t' + r['prec']
                x = rng.random()
                if x < .6:
                    s += p + gap(rng, noise / 2) + action(rng)
                else:
                    s += p
                s += gap(rng, noise / 3) if rng.random() < .6 else ''
            o.append(s + rng.choice(['\n\t\t;\n', ' ;\n', ';\n', '\n;\n\n']))
    o.append('\n')
    if rng.random() < .8:
        o.append('%%\n')
        if rng.random() < .7:
            o.append(EPILOG)
    return ''.join(o)


def from_file(levels, rules):
    """A Gram of what Yacc.tla read."""
    tx = lambda cs: ''.join(map(chr, cs))
    return Gram({'levels': [(l['assoc'], [tx(s) for s in l['syms']]) for l in levels],
                 'rules': [{'lhs': tx(r['lhs']), 'rhs': [tx(s) for s in r['rhs']], 'prec': tx(r['prec']) or None} for r in rules]})


def yacc_half(chk, gen, rng):
    count = 320 if chk.thorough else 56
    base = [g for g in map(Gram, CURATED) if g.usable()]
    base += lalrgen.grammars(rng, count // 2)
    texts = [render_yacc(g, rng, rng.choice([.15, .4, .7])) for g in (base + [rng.choice(base) for _ in range(count)])[:count]]
    texts += [g.text() for g in base[:4]]
    # levels that matter
    texts += [render_yacc(g, rng, rng.choice([.1, .4]), rng.choice([.3, .6, 1])) for g in lalrgen.operator_grammars(rng, 80 if chk.thorough else 20)]
    # what the files say
    sh = vlib.split(texts, vlib.NCPU)
    tot, prints = vlib.tlc_shards('YaccRead', [[list(texts[i].encode()) for i in s] for s in sh], chk.pid + 'y', heap='2g', timeout=600)
    chk.add_tlc(tot, len(texts))
    gs = [None] * len(texts)
    for s, ps in zip(sh, prints):
        for p in ps:
            if p[0] != 'GRAMMAR':
                raise vlib.ToolError('unexpected TLC output %r' % (p,))
            gs[s[p[1] - 1]] = from_file(p[2]['levels'], p[2]['rules'])
    if None in gs:
        raise vlib.ToolError('a grammar file was not read')
    for g, t in zip(gs, texts):
        if not g.usable():
            raise vlib.ToolError('the specification reads a grammar outside the property:\n' + t)
    chk.log(len(texts), 'grammar files read,', sum(len(g.rules) for g in gs), 'productions')
    units = 0
    for o in range(0, len(texts), 100):
        part = list(range(o, min(o + 100, len(texts))))
        runs = gen.many('parser-generator', [texts[i] for i in part], 'gram.y')
        keep = []
        for i, (d, why) in zip(part, runs):
            if d is None:
                chk.violation('the generator fails on a grammar file: %s' % why, {'file': texts[i], 'why': why})
            else:
                keep.append((gs[i], d, texts[i]))
        us, hooked = lalrgen.observe(chk, gen, [k[:2] for k in keep], rng, 60 if chk.thorough else 40, 'yacc%d' % o)
        before = len(chk.violations)
        lalrgen.decide(chk, us, 'y%d' % o)
        units += len(us)
        if o == 0:
            chk.sample({'grammar file': texts[0][-900:]})
    chk.cov['grammar_files'] = len(texts)
    chk.cov['grammar_file_bytes'] = sum(map(len, texts))


# ------------------------------------------------------------------- scanner files
STATES = ['xb', 'xc', 'xd', 'xh', 'xq', 'xqs', 'xe', 'xdolq', 'xui', 'xus', 'xeu']
NTOK = 24
PIECES = ['[0-9]', '[a-c]', '[^a-c\\n]', 'ab', 'a', 'b', '"::"', '\\.\\.', '[a-zA-Z_]', '\\$', '"--"', 'x[0-9]', '(ab|ba)', '[\\\\]n', '\\\'', '[+*/<>=-]', '[ ]', '[\\t ]', 'c{2}', '[0-9]{1,3}', '"/*"', '"*/"',
          '\\"', '.', '=', '<', '"<="', '(a|b|cc)', '[^\\n"]']


def flex_file(rng, noise):
    """A scanner file, as text; every action carries its mark."""
    states = rng.sample(STATES, rng.randint(1, 3))
    all_states = ['INITIAL'] + states
    defs = []
    for i in range(rng.randint(2, 7)):
        name = rng.choice(['digit', 'word', 'op', 'quote', 'sp', 'id_start', 'other', 'num']) + rng.choice(['', '', '2', '_x'])
        if name in [d[0] for d in defs]:
            continue
        k = rng.randint(1, 3)
        parts = [rng.choice(PIECES) if not defs or rng.random() < .6 else '{%s}' % rng.choice(defs)[0] for _ in range(k)]
        p = ''.join(x + rng.choice(['', '', '', '+', '*', '?']) if j else x + rng.choice(['', '', '+']) for j, x in enumerate(parts))
        if rng.random() < .25:
            p = '(%s|%s)' % (p, rng.choice(PIECES))
        elif rng.random() < .3:
            # an alternative that is not in parentheses: the reference must bring them
            p = '%s|%s' % (p, rng.choice(PIECES))
        defs.append((name, p))
    tok = [0]

    def mark(eof=False):
        tok[0] += 1
        t = (tok[0] - 1) % NTOK + 1
        st = rng.choice(all_states) if rng.random() < .35 else ''
        if rng.random() < .15:
            t = 0
        m = '@%s@%s@' % (t or '', st)
        code = []
        if st:
            code.append('self.begin(State::%s);' % st)
        if t:
            code.append('self.set_yylloc();')
            code.append('return Ok(Some(TokenKind::KEYWORD("A%d".to_string())));' % t)
        if rng.random() < .3:
            code.insert(0, 'if self.yyleng > 1000 { self.xcdepth = 0; }')
        if rng.random() < .5:
            ind = '\n\t\t\t\t\t'
            return '{' + ind + '// ' + m + ind + ind.join(code) + '\n\t\t\t\t}'
        return '{ /* ' + m + ' */ ' + ' '.join(code) + ' }'

    def pattern():
        x = rng.random()
        if x < .45:
            p = '{%s}' % rng.choice(defs)[0]
            if rng.random() < .4:
                p += rng.choice(['+', '{%s}' % rng.choice(defs)[0], 'a', '"."', '[0-9]*', '?b'])
            return p
        # a rule that starts with < would name start conditions
        p = rng.choice([q for q in PIECES if ' ' not in q and not q.startswith('<')])
        if rng.random() < .5:
            p += rng.choice([q for q in PIECES if ' ' not in q]) + rng.choice(['', '+', '*', '?'])
        return p

    def rule(pat, act):
        return pat + rng.choice(['\t', '\t\t', ' ', '   ', '\t\t\t']) + act + rng.choice(['', '', '', ' ', '\t']) + '\n'
    o = []
    if rng.random() < .5:
        o.append('%top{\n/*----\n * scan.l\n *\t x\t%x none\n */\n#include "postgres.h"\n}\n\n')
    if rng.random() < .7:
        o.append('%{\n\n/* LCOV_EXCL_START */\n#define SET_YYLLOC()  (*(yylloc) = yytext)\nstatic void addlit(char *ytext, int yleng);\nint\tx;\n%}\n\n')
    for x in ['reentrant', 'bison-bridge', '8bit', 'nodefault', 'prefix="core_yy"']:
        if rng.random() < .5:
            o.append('%option ' + x + '\n')
    o.append('\n')
    if rng.random() < noise:
        o.append('/*\n * OK, here is a short description.\n *  <xb> bit string\n *\n * %x none\n */\n')
    # the conditions the copied scanner code names are always there
    decl = states + [s for s in STATES if s not in states]
    if rng.random() < .5:
        rng.shuffle(decl)
    o += ['%%x %s\n' % s for s in decl] + ['\n']
    for n, p in defs:
        if rng.random() < noise:
            o.append(rng.choice(['\n/* %s\tx */\n', '\n/*\n * {%s} is needed\n *\tto avoid lexer backup\n */\n', '\n/* one\n * %s\n *\n * two "\n */\n']) % n)
        o.append(n + rng.choice(['\t', '\t\t', '\t\t\t\t']) + p + rng.choice(['', '', ' ', '\t']) + '\n')
    o.append('\n%%\n\n')
    body, dead = [], set()
    n = rng.randint(4, 9)
    for i in range(n):
        x = rng.random()
        pre = ''
        if x < .45:
            pre = '<%s>' % ','.join(rng.sample(all_states, rng.randint(1, len(all_states))))
        if x > .85:
            st = rng.sample(states, 1)
            inner = []
            for _ in range(rng.randint(1, 3)):
                inner.append(rule(pattern(), '|' if rng.random() < .15 else mark()))
                if rng.random() < .5:
                    inner.append('\n')
            if inner[-1].strip().endswith('|'):
                pass
            body.append('<%s>{\n%s}%s\n' % (','.join(st), ''.join(inner), rng.choice(['', ' /* <%s> */' % st[0]])))
        else:
            body.append(rule(pre + pattern(), '|' if rng.random() < .18 else mark()))
        if rng.random() < .6:
            body.append('\n')
    # every condition accepts everything, and ends
    body.append(rule('<%s>(.|\\n)' % ','.join(all_states), mark()))
    body.append(rule('<%s>\\n+' % rng.choice(all_states), mark()))
    if rng.random() < .5:
        body.append('<%s><<EOF>>\t{ yyterminate!(); }\n' % ','.join(states))
        body.append('\n<<EOF>>\t\t\t{\n\t\t\t\t\tself.set_yylloc();\n\t\t\t\t\tyyterminate!();\n\t\t\t\t}\n')
    else:
        body.append('<%s><<EOF>>\t{ yyterminate!(); }\n' % ','.join(all_states))
    o += body
    o.append('\n%%\n')
    if rng.random() < .8:
        o.append('\n/* LCOV_EXCL_STOP */\n\nvoid\nscanner_init(const char *str)\n{\n\tx\ty;\n}\n')
    return ''.join(o)


SAMPLES = ['', 'a', 'b', '\n', 'ab', 'abab cc', '12 x3 $4', 'a::b..c', '--ab\n12', "'a''b'", '"x"y', '\\n\\na', '/* a */ b', 'a<=b<>c', '....', '123456', 'aAbB_c', ' \t \n ', 'ccc cc c', 'x1x22x333', '+-*/<>=', '$$a$b']
ALPHA = 'abcx019 \t\n.$:"\'\\-+*/<>=_Z,'


def tokens_of(o, kinds):
    if o['r'] == 'ok':
        out = []
        for e in o['t']:
            if e[0] == 1:
                k = kinds[e[1]]
                if re.fullmatch(r'A\d+', k):
                    out += [int(k[1:]), e[2], e[3]]
                elif k != 'Whitespace':
                    out += [-3, e[2], e[3]]
        return out
    return [-9]


def flex_half(chk, gen, rng):
    count = 150 if chk.thorough else 36
    texts = [flex_file(rng, rng.choice([.2, .5, .9])) for _ in range(count)]
    # one parser for all of them
    toks = ['A%d' % i for i in range(1, NTOK + 1)]
    gram = '%%\nstmt: stmt item | ;\nitem: ' + ' | '.join(toks) + ' ;\n%%\n'
    pd, why = gen.run('parser-generator', 'flex', {'gram.y': gram})
    if pd is None:
        chk.violation('the generator fails on a grammar: %s' % why, {'file': gram})
        return
    runs = gen.many('lexer-generator', texts, 'scan.l')
    keep = []
    for t, (d, why) in zip(texts, runs):
        if d is None:
            chk.violation('the generator fails on a scanner file: %s' % why, {'file': t, 'why': why})
        else:
            keep.append((t, d))
    b, hooked, dead = toygen.toy_crates(gen, [(pd, d) for _, d in keep], 'flex')
    for k, why in dead.items():
        chk.violation('the generated scanner does not compile: %s' % why, {'file': keep[k][0]})
    live = [k for k in range(len(keep)) if k not in dead]
    nstr = 160 if chk.thorough else 60
    lines, strs = [], {}
    for k in live:
        ss = list(SAMPLES)
        while len(ss) < nstr:
            ss.append(''.join(rng.choice(ALPHA) for _ in range(rng.choice([2, 3, 5, 8, 13, 24]))))
        strs[k] = ss
        lines += ['%d\tkinds\t' % k] + ['%d\tparse\t%s' % (k, s.encode().hex()) for s in ss]
    ans = toygen.ask(b, lines) if live else []
    units, o, idx = [], 0, []
    for k in live:
        kinds = ans[o]
        obs = ans[o + 1:o + 1 + len(strs[k])]
        o += 1 + len(strs[k])
        units.append({'text': list(keep[k][0].encode()), 'strs': [{'s': list(s.encode()), 't': tokens_of(x, kinds)} for s, x in zip(strs[k], obs)]})
        idx.append(k)
    chk.log(len(units), 'scanner files,', sum(len(u['strs']) for u in units), 'strings')
    sh = vlib.split(units, vlib.NCPU)
    tot, prints = vlib.tlc_shards('FlexMC', [[units[i] for i in s] for s in sh], chk.pid + 'f', heap='3g', timeout=850)
    chk.add_tlc(tot, len(units))
    rules = 0
    for s, ps in zip(sh, prints):
        for p in ps:
            if p[0] == 'READ':
                rules += p[4]
                continue
            if p[0] != 'SCAN':
                raise vlib.ToolError('unexpected TLC output %r' % (p,))
            k = idx[s[p[1] - 1]]
            w = strs[k][p[2] - 1]
            if -1 in p[4] or -2 in p[4]:
                raise vlib.ToolError('a scanner file outside the format was generated (%s on %r):\n%s' % (p[4], w, keep[k][0]))
            chk.violation('%r: the generated scanner returns %s, the file says %s (token, start, end)' % (w, p[3], p[4]),
                          {'file': keep[k][0], 'input': w, 'scanner': p[3], 'specification': p[4]})
    chk.cov.update(scanner_files=len(texts), scanner_rules=rules, scanner_strings=sum(len(u['strs']) for u in units))
    if live:
        chk.sample({'scanner file': keep[live[0]][0][-700:]})


def check_C19(chk):
    rng = random.Random(chk.seed * 100 + 19)
    with toygen.Generators() as gen:
        yacc_half(chk, gen, rng)
        flex_half(chk, gen, rng)
    chk.assumptions.append('files stay within the format of gram.y and scan.l: declarations start their line, continuation lines are indented; patterns of rules hold no blanks, definitions follow a tab')
