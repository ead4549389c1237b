"""Independent reader for the yacc grammar (gram.y) -- written from the yacc
format, not from the repository's own reader.

parse_yacc(text) -> dict with
  tokens   : list of declared token names (in order)
  prec     : {symbol: (level, assoc)} assoc in left/right/nonassoc; higher binds tighter
  rules    : list of {lhs, rhs:[sym], prec: sym|None}
  start    : start symbol
Symbols: names as written; character literals are kept with their quotes: "'+'".
"""
import re, json, sys


def _lex(text):
    """token stream of a yacc file section, actions/comments dropped"""
    i, n = 0, len(text)
    out = []
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1
            continue
        if text.startswith('/*', i):
            j = text.find('*/', i + 2)
            if j < 0:
                raise ValueError('unterminated comment')
            i = j + 2
            continue
        if text.startswith('//', i):
            j = text.find('\n', i)
            i = n if j < 0 else j + 1
            continue
        if text.startswith('%{', i):
            j = text.find('%}', i)
            i = j + 2
            continue
        if text.startswith('%%', i):
            out.append(('MARK', '%%', i))
            i += 2
            continue
        if c == '{':
            depth = 0
            while True:
                d = text[i]
                if text.startswith('/*', i):
                    i = text.find('*/', i + 2) + 2
                    continue
                if text.startswith('//', i):
                    i = text.find('\n', i)
                    continue
                if d in '"\'':
                    q = d
                    i += 1
                    while text[i] != q:
                        i += 2 if text[i] == '\\' else 1
                    i += 1
                    continue
                if d == '{':
                    depth += 1
                elif d == '}':
                    depth -= 1
                    if depth == 0:
                        i += 1
                        break
                i += 1
            out.append(('ACTION', '', i))
            continue
        if c == "'":
            j = i + 1
            if text[j] == '\\':
                j += 1
            j += 1
            assert text[j] == "'", text[i:i + 10]
            out.append(('LIT', text[i:j + 1], i))
            i = j + 1
            continue
        if c == '"':
            j = text.index('"', i + 1)
            out.append(('STR', text[i:j + 1], i))
            i = j + 1
            continue
        if c == '<':
            j = text.index('>', i)
            out.append(('TAG', text[i:j + 1], i))
            i = j + 1
            continue
        m = re.compile(r'%[A-Za-z][A-Za-z_-]*').match(text, i)
        if m:
            out.append(('DIR', m.group(0), i))
            i = m.end()
            continue
        m = re.compile(r'[A-Za-z_.$][A-Za-z0-9_.$]*').match(text, i)
        if m:
            out.append(('ID', m.group(0), i))
            i = m.end()
            continue
        m = re.compile(r'[0-9]+').match(text, i)
        if m:
            out.append(('NUM', m.group(0), i))
            i = m.end()
            continue
        out.append((c, c, i))
        i += 1
    return out


def parse_yacc(text):
    # epilogue is C code: cut at the second %% that starts a line
    marks = [m.start() for m in re.finditer(r'^%%', text, re.M)]
    body_end = marks[1] if len(marks) > 1 else len(text)
    toks = _lex(text[:body_end])
    tokens, prec, level = [], {}, 0
    start = None
    i = 0
    while toks[i][0] != 'MARK':
        kind, val, _ = toks[i]
        i += 1
        if kind != 'DIR':
            continue
        args = []
        while toks[i][0] in ('ID', 'LIT', 'TAG', 'NUM', 'STR'):
            args.append(toks[i])
            i += 1
        names = [v for k, v, _ in args if k in ('ID', 'LIT')]
        if val == '%token':
            tokens += names
        elif val in ('%left', '%right', '%nonassoc', '%precedence'):
            level += 1
            for nme in names:
                prec[nme] = (level, val[1:])
        elif val == '%start':
            start = names[0]
    i += 1
    rules = []
    while i < len(toks):
        kind, val, _ = toks[i]
        assert kind == 'ID', toks[i]
        lhs = val
        i += 1
        assert toks[i][0] == ':', (lhs, toks[i])
        i += 1
        rhs, rprec = [], None
        while True:
            # a new rule begins at "ID :" even when the ';' is missing
            end = i >= len(toks) or toks[i][0] == ';' or (
                toks[i][0] == 'ID' and i + 1 < len(toks) and toks[i + 1][0] == ':')
            if end or toks[i][0] == '|':
                rules.append({'lhs': lhs, 'rhs': rhs, 'prec': rprec})
                rhs, rprec = [], None
                if end:
                    while i < len(toks) and toks[i][0] == ';':
                        i += 1
                    break
                i += 1
                continue
            kind, val, _ = toks[i]
            i += 1
            if kind in ('ID', 'LIT'):
                rhs.append(val)
            elif kind == 'DIR' and val == '%prec':
                rprec = toks[i][1]
                i += 1
            elif kind == 'DIR' and val == '%empty':
                pass
            elif kind == 'ACTION':
                pass
            else:
                raise ValueError((kind, val))
    if start is None:
        start = rules[0]['lhs']
    return {'tokens': tokens, 'prec': prec, 'rules': rules, 'start': start}


if __name__ == '__main__':
    g = parse_yacc(open(sys.argv[1]).read())
    json.dump(g, sys.stdout, indent=0)
