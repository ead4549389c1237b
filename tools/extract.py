#!/usr/bin/env python3
"""Extract the pinned reference data of the specification.

Run once on the pinned commit (output committed under spec/data); check C18
re-runs the extraction on the current tree and compares."""
import json, re, sys, os, gzip
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gramy import parse_yacc

PUNCT = {'-': 'Minus', ',': 'Comma', ';': 'Semicolon', ':': 'Colon', '!': 'Exclamation', '?': 'Question',
         '.': 'Dot', '"': 'DQuote', '(': 'LParen', ')': 'RParen', '[': 'LBracket', ']': 'RBracket',
         '{': 'LBrace', '}': 'RBrace', '@': 'At', '*': 'Star', '/': 'Slash', "'": 'Quote', '\\': 'Backslash',
         '&': 'Ampersand', '#': 'Pound', '%': 'Percent', '`': 'Backtick', '^': 'Caret', '+': 'Plus',
         '<': 'Less', '=': 'Equals', '>': 'Greater', '|': 'Pipe', '~': 'Tilde', '$': 'Dollar'}


def keywords(repo):
    out = []
    for line in open(os.path.join(repo, 'crates/lexer-generator/resources/kwlist.h')):
        m = re.match(r'PG_KEYWORD\("([a-z_0-9]+)",\s*([A-Z_0-9]+),\s*([A-Z_]+)_KEYWORD,\s*([A-Z_]+)\)', line)
        if m:
            out.append(list(m.groups()))
    return out


def grammar(repo):
    return parse_yacc(open(os.path.join(repo, 'crates/parser-generator/resources/gram.y')).read())


if __name__ == '__main__':
    repo, dst = sys.argv[1], sys.argv[2]
    os.makedirs(dst, exist_ok=True)
    kw = keywords(repo)
    json.dump(kw, open(os.path.join(dst, 'keywords.json'), 'w'), indent=0)
    g = grammar(repo)
    g['prec'] = {k: list(v) for k, v in g['prec'].items()}
    json.dump(g, open(os.path.join(dst, 'grammar.json'), 'w'), indent=0)
    print(len(kw), 'keywords', len(g['rules']), 'rules')
