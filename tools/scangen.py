"""Inputs for the scanner: exhaustive over small alphabets, boundary families, and random mixtures."""
import itertools, random

FRAGS = ["a", "Z_", "é", "日本", "\U0001F600", "_", "$", "$1", "$99999999999", "$a$", "$$", "$é$", "1", "0", "12", "1_0", "0x1F", "0b1", "0o7",
         "0x", "0b_", "1.", ".5", "1.5", "1e5", "1e", "1e+", "1.5e-3", "..", ".", "'", "''", "\"", "\"\"", "e'", "E'", "b'", "B'", "x'",
         "X'", "n'", "N'", "u&'", "U&'", "u&\"", "U&\"", "u&", "\\", "\\'", "\\\\", "\\n", "\\x", "\\x41", "\\101", "\\u0041",
         "\\u00", "\\U0001F600", "\\ud83d", "\\ude00", "\\u0000", "\\U00110000", " ", "\n", "\t", "\r", "\f", "\v", "--", "-- c\n", "/*", "*/", "/**/",
         "/*/", "//", "**", "+", "-", "*", "/", "<", ">", "=", "~", "!", "@", "#", "%", "^", "&", "|", "`", "?", "::", ":=", ":", "=>",
         "<=", ">=", "<>", "!=", "(", ")", "[", "]", ",", ";", "{", "}", "select", "SELECT", "Not", "between", "format", "json",
         "with", "time", "nulls", "first", "uescape", "\x7f", "\x01", "\x0e", "\x1f", "\xa0", "\u2028", "\u3000", "\ufeff", "\x85"]


def over(alpha, n):
    for k in range(n + 1):
        for x in itertools.product(alpha, repeat=k):
            yield ''.join(x)


# (name, alphabet, prefixes, quick length, thorough length)
FOCUS = [
    ('numbers', '019_.eEx+a', [''], 4, 5),
    ('radix', ['0x', '0b', '0o', '0X', '0B', '0O', '0', '1', '7', '8', 'f', 'g', '_', '.'], [''], 3, 4),
    ('operators', '+-*/<>=!|:~', [''], 4, 5),
    ('operators2', ['+', '-', '@', '#', '&', '^', '%', '`', '?', '=', '>', '--', '/*', '*/'], [''], 3, 4),
    ('strings', ["'", 'e', 'a', ' ', '\n', '\\', 'b', '-'], [''], 4, 6),
    ('introducers', ['u', 'U', '&', "'", '"', 'n', 'x', 'B', '\n'], [''], 4, 5),
    ('continuation', ["'", ' ', '\n', '\r', '--', 'a', '\f'], ["'a", "b'1", "e'\\n", "x'1", "u&'1"], 3, 5),
    ('dollar', ['$', 'a', '1', "'", '\n', '_', 'é'], [''], 4, 6),
    ('dollarbody', ['$', 'a', 'b', '1', '$a$', '$b$'], ['$a$', '$$'], 4, 5),
    ('escapes', ['\\', 'u', 'U', 'x', '0', '8', 'd', "'", 'n'], ["e'"], 4, 5),
    ('unicode', ['\\ud83d', '\\ude00', '\\u0041', '\\U0001F600', '\\u00', '\\U0011', "'", 'a', '\\', '\\n', '\\u0000', '\\U00110000', '\\U0010FFFF', '\\uD7FF', '\\uE000', '\\udfff', '\\uDBFF'], ["e'"], 3, 4),
    ('comments', ['/', '*', '-', '\n', 'a', '+'], [''], 5, 6),
    ('nested', ['/*', '*/', '*', '/', 'a', "'", '--', '\n'], ['/*'], 4, 5),
    ('quoted', ['"', 'a', ' ', 'é', '\n', '\\', "'"], ['', '"', 'u&"'], 4, 5),
    ('words', ['a', '1', '_', '$', 'é', 'N', "'", ' '], [''], 4, 5),
    ('dots', ['.', '1', 'a', ' ', 'e', '*', '('], [''], 4, 6),
]


def boundaries():
    out = []
    # every byte value / a range of characters alone and in contexts
    chars = [chr(i) for i in range(0, 256)] + [chr(x) for x in (0x100, 0x131, 0x130, 0x17f, 0x212a, 0x7ff, 0x800, 0x1e9e, 0x2028, 0x3000, 0xd7ff,
                                                               0xe000, 0xfeff, 0xffff, 0x10000, 0x10ffff)]
    for ch in chars:
        for c in ['%s', 'a%s', '%sa', "'%s'", "'a'%s", '"%s"', "e'\\%s'", '$%s$', '$1%s', '1%s', '--%s\na', '/*%s*/', 'select%s', '%s%s', '.%s', '+%s', 'u&%s', "'a'\n%s'b'", '$%s$ $%s$', "b'%s'", "x'%s'", 'a %s b', ':%s', '1.%s', '1e%s', '0x%s', "n%s'a'", '@%s']:
            out.append(c.replace('%s', ch))
    # operators near the length limit, with every trimming situation
    for n in list(range(60, 68)) + [1, 2, 3, 127, 128, 255, 256]:
        for op in ['+', '<', '@', '|', '*', '=']:
            out += [op * n, op * n + '-', op * n + '--', '@' + op * n + '-', op * n + '/*x*/', '(' + op * n + ')', 'a' + op * n + '+-+1']
    # pairs of operator characters and longer trims
    ops = '~!@#^&|`?+-*/%<>='
    for a in ops:
        for b in ops:
            out += [a + b, a + b + '-', a + b + '+', a + '-' + b, a + b + '-+-', a + '+-' + b + '1', a + b + '*/', a + '-' + b + '-']
    # integers near 2^31 in every radix, with underscores and leading zeros
    for v in [0, 1, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 10 ** 30, 2147483639, 2147483650,
              2000000000, 3000000000, 999999999, 1000000000, 9999999999, 10000000000]:
        for f in ['%d' % v, '0%d' % v, '000000000000%d' % v, '0x%x' % v, '0X%X' % v, '0x0000%x' % v, '0o%o' % v, '0O%o' % v, '0b' + bin(v)[2:],
                  '0B000' + bin(v)[2:]]:
            g = f
            if len(f) > 3:
                g = f[:-1] + '_' + f[-1]
            out += [f, g, f + '..', f + '.', '-' + f, f + '.5', f + 'e1', f + ' ', f + ',', f + '..1']
            if f[:1] == '0' and f[1:2] in 'xXoObB':
                out.append(f[:2] + '_' + f[2:])
    for v in ['1', '2147483647', '2147483648', '99999999999999999999', '0', '00', '1_0', '1a']:
        out += ['$' + v, '$' + v + 'a', 'a$' + v, '$' + v + '$', '($' + v + ')']
    # sizes around powers of two
    for n in [1, 2, 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025]:
        out += ['a' * n, 'select' + 'a' * n, '"' + 'a' * n + '"', "'" + 'a' * n + "'", '$' + 'a' * n + '$x$' + 'a' * n + '$', "e'" + '\\n' * n + "'",
                '1' * n, '--' + 'c' * n, '/*' + 'c' * n + '*/', ' ' * n + 'x', '\n' * n + "'", 'é' * n, '1' + '_1' * n, '1.' + '0' * n,
                '.' * n, '(' * n, '"' + '""' * n + '"', "'" + "''" * n + "'", "'a'" + "\n'b'" * n, '$a$' + '$b' * n + '$a$', '$$' + '$a' * n + '$$', 'a ' * n, "b'" + '1' * n + "'", '/**/' * min(n, 257), '-- a\n' * n,
                '/*' + '*' * min(n, 300) + '/', '/*' + '/' * min(n, 300) + '*/', '*' * min(n, 300) + '/', ' \n' * n + '1', 'a' * n + "'x'", "'a'" + ' ' * n + '\n' + "'b'", '$' + '1' * n, '0x' + 'F' * n, '0b' + '1' * n, '0o' + '7' * n]
    # dollar tags of one length that differ in one place
    for n in [1, 2, 5, 9, 17, 20, 21, 33, 63, 64, 65, 130, 257]:
        t = 'a' * n
        for i in sorted({0, 1, n // 3, n // 2, n - 2, n - 1} & set(range(n))):
            u = t[:i] + 'b' + t[i + 1:]
            out += ['$%s$ $%s$ $%s$ x' % (t, u, t), '$%s$$%s$' % (u, t)]
        out += ['$%s$ $%sa$ $%s$ x' % (t, t, t), '$%s$ $%s$ $%s$ x' % (t, t[1:], t), '$%s$ $%s$ $%s$ x' % (t, t.upper(), t)]
    for n in [1, 2, 3, 10, 50, 127, 128, 129, 200, 255, 256, 257]:
        out += ['/*' * n + ' ' + '*/' * n, '/*' * n + '*/' * (n - 1), '/*' * n + '*/' * (n + 1), '/*/' * n + '*/*/' * n]
    # escapes of every kind and width
    for c in [chr(i) for i in range(1, 128)] + ['é', '日']:
        out += ["e'\\" + c + "'", "e'\\" + c, "e'a\\" + c + "b'", "E'\\" + c + c + c + "' x"]
    for u in [0, 1, 0x41, 0xff, 0x100, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff]:
        out += ["e'\\u%04x'" % u, "e'\\U%08x'" % u, "e'\\u%04X\\u%04x'" % (u, 0xdc00), "e'\\ud800\\u%04x'" % u, "e'\\ud800\\U%08x'" % u, "e'\\U%08x\\udfff'" % u, "e'a\\u%04xb' c" % u]
    for u in [0x10000, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000, 0xffffffff, 0xd8000000, 0x0011ffff, 0x01000041, 0x0000d83d, 0x0000de00, 0xffff0041]:
        out += ["e'\\U%08x'" % u, "e'\\ud800\\U%08x'" % u, "e'\\U%08X\\udc00'" % u]
    for k in range(0, 9):
        out += ["e'\\u" + '0' * k + "'", "e'\\U" + '0' * k + "'", "e'\\u" + '1' * k + "g'", "e'\\U" + '1' * k, "e'\\ud800\\u" + 'd' * k + "'", "e'\\ud800\\U" + '0' * k + "'", "e'\\x" + '4' * k + "'", "e'\\" + '1' * k + "'", "e'\\" + '7' * k + "8'", "e'\\xg" + '4' * k]
    for c in ['a', ' ', '\\', "'", '\n', 'é', '', '\\n', "''", '/*', '\\u']:
        out += ["e'\\ud83d" + c, "e'\\ud83d" + c + "'", "e'\\ud83d\\ude00" + c + "'", "e'\\ud83d'" + c, "e'\\ud83d'\n'" + c + "\\ude00'"]
    # keyword-like starts of strings
    for p in ['b', 'B', 'x', 'X', 'n', 'N', 'e', 'E', 'u&', 'U&', 'u', 'a', '1', '_', '$', 'xe', 'be', 'eb', 'E&', 'u &', 'u& ']:
        for q in ["''", "'a'", '""', '"a"', "'", '"', "'a' 'b'", "'a'\n'b'", "'a'\n  \n'b' c", "'a'\n x'b'", "'a' -- c\n'b'", "'a'/*\n*/'b'", "'a'\n-- c\n'b'", "'a'\r'b'", "'a'\n\t\f\v'b'", "'a'\n\"b\"", "'a'\ne'b'"]:
            out.append(p + q)
    return out


def randoms(rng, n, lo=1, hi=14):
    out = []
    for _ in range(n):
        out.append(''.join(rng.choice(FRAGS) for _ in range(rng.randint(lo, hi))))
    return out


def utf8_randoms(rng, n):
    out = []
    pool = [chr(i) for i in range(128)] + list("éß日\U0001F600\u212a\u017f") + ["'", '"', '$', '\\', '-', '*', '/'] * 4
    for _ in range(n):
        out.append(''.join(rng.choice(pool) for _ in range(rng.randint(1, 24))))
    return out


def focus(thorough, rng=None, cap=None):
    res = {}
    for name, al, pre, q, t in FOCUS:
        xs = []
        for p in pre:
            xs += [p + x for x in over(list(al), t if thorough else q)]
        if cap and len(xs) > cap:
            rng = rng or random.Random(1)
            xs = rng.sample(xs, cap)
        res[name] = xs
    return res


def pairs():
    """every ordered pair of ASCII bytes in INITIAL, and each pair after a letter"""
    return [chr(a) + chr(b) for a in range(1, 128) for b in range(1, 128)]


WORDS = ['select', 'from', 'not', 'nulls', 'format', 'between', 'e', 'b', 'x', 'n', 'u', 'tag', 'a', 'body', 'q1', '_', 'Ab', 'zz_9', 'é', 'naïve', '日本', 'K\u212a', '\u017f', 'i\u0307', 'ß']


def flip(rng, s):
    return ''.join(c.swapcase() if rng.random() < .4 else c for c in s)


def near(rng, w):
    """a spelling that differs slightly from w"""
    k = rng.randrange(9)
    i = rng.randrange(len(w) + 1)
    if k == 0:
        return w.swapcase() or 'a'
    if k == 1:
        return flip(rng, w) or 'A'
    if k == 2:
        return w[:-1]
    if k == 3:
        return w + rng.choice(['a', '1', '_', 'é', w[-1:] or 'b'])
    if k == 4:
        return w[:i] + rng.choice('ab1_é') + w[i:]
    if k == 5:
        return w[:i] + rng.choice('zZ0é') + w[i + 1:]
    if k == 6:
        return w[1:]
    if k == 7:
        return w[::-1]
    return w + w


def word(rng):
    w = rng.choice(WORDS) if rng.random() < .6 else ''.join(rng.choice('abcXYZ_é') for _ in range(rng.randint(1, 9)))
    if rng.random() < .3:
        w += rng.choice(['1', '_', '$', '$1', '9a', 'é'])
    return flip(rng, w) if rng.random() < .4 else w


def dollar(rng):
    tag = '' if rng.random() < .2 else ''.join(rng.choice('abAB_é日1') for _ in range(rng.randint(1, 6)))
    if tag[:1] == '1':
        tag = 'a' + tag
    d = '$' + tag + '$'
    body = ''
    for _ in range(rng.randint(0, 5)):
        n = near(rng, tag)
        body += rng.choice(['x', '$', '$$', "'", ' ', '\n', '$1', '$' + n + '$', '$' + n, n + '$', '$' + tag, '$' + tag + ' $', '--', '/*', '\\', '"', '$' + n + d[:-1]])
    if d in body or (body + d).find(d) != len(body):
        if rng.random() < .5:
            body = ''
    return d + body + (d if rng.random() < .9 else rng.choice(['', d[:-1], '$' + near(rng, tag) + '$']))


ESC = ['\\n', '\\t', '\\b', '\\f', '\\r', '\\v', '\\a', '\\\\', "\\'", "''", '\\1', '\\12', '\\101', '\\1011', '\\x4', '\\x41', '\\x41f', '\\xZ', '\\X41', '\\u0041', '\\u00E9', '\\U00000041', '\\U0001f600',
       '\\ud83d\\ude00', '\\uD83D\\U0000DE00', '\\\n', '\\é', 'a', ' ', '\n', '"', '$', '%', '--', '/*', '\\377', '\\x7f', '\\u007f']
BADESC = ['\\u004', '\\U0000004', '\\ud83d', '\\ude00', '\\ud83da', '\\ud83d\\u0041', '\\U00110000', '\\u', '\\U', '\\ud83d\\ud83d', '\\u0000', '\\uXYZW', '\\ud83d\\n']


def literal(rng):
    k = rng.randrange(8)
    if k == 0:
        return rng.choice('eE') + "'" + ''.join(rng.choice(ESC) if rng.random() < .97 else rng.choice(BADESC) for _ in range(rng.randint(0, 7))) + "'"
    if k == 1:
        return rng.choice('bBxX') + "'" + ''.join(rng.choice('01abF9 g') for _ in range(rng.randint(0, 6))) + "'"
    if k == 2:
        return rng.choice(['u&', 'U&']) + rng.choice(['\'', '"']) + ''.join(rng.choice(['a', '\\0041', '\\+000041', '\\', '!', 'é', ' ']) for _ in range(rng.randint(1, 4)))
    if k == 3:
        return rng.choice('nN') + "'" + rng.choice(['', 'a', 'é', "''"]) + "'"
    if k == 4:
        return '"' + ''.join(rng.choice(['a', 'B', '""', ' ', '\n', 'é', "'", '\\', '$', '--', '.']) for _ in range(rng.randint(1, 5))) + '"'
    if k == 5:
        return dollar(rng)
    s = "'" + ''.join(rng.choice(['a', 'B', "''", ' ', '\n', 'é', '"', '\\', '$', '--', '/*', '\\n', '%']) for _ in range(rng.randint(0, 5))) + "'"
    while rng.random() < .3:
        s += rng.choice(['\n', ' \n', '\r', '\n\n', ' -- c\n', '\t\n ', ' ', '\f', '\v\n', '-- c\r', '\n-- c\n', '/**/\n', '\n--']) + "'" + rng.choice(['', 'b', "''", '\\']) + "'"
    return s


def number(rng):
    d = lambda n=6: ''.join(rng.choice(['0', '1', '7', '8', '9', '_1', '5']) for _ in range(rng.randint(1, n))).lstrip('_')
    k = rng.randrange(9)
    if k == 0:
        return d() + '.' + d()
    if k == 1:
        return d() + rng.choice('eE') + rng.choice(['', '+', '-']) + d(3)
    if k == 2:
        return '.' + d()
    if k == 3:
        return d() + '.' + rng.choice(['', '.', 'e1', '.5', 'a'])
    if k == 4:
        return '0' + rng.choice('xX') + rng.choice(['', '_']) + ''.join(rng.choice('0aF9fE_') for _ in range(rng.randint(1, 5)))
    if k == 5:
        return '0' + rng.choice('oO') + rng.choice(['', '_']) + ''.join(rng.choice('0172_8') for _ in range(rng.randint(1, 5)))
    if k == 6:
        return '0' + rng.choice('bB') + rng.choice(['', '_']) + ''.join(rng.choice('01_1') for _ in range(rng.randint(1, 6)))
    if k == 7:
        return '$' + d(4)
    return d(12)


def comment(rng):
    if rng.random() < .4:
        return '--' + ''.join(rng.choice(['a', "'", '-', '/*', '*/', ' ', 'é', '"', '$$', '\t']) for _ in range(rng.randint(0, 5))) + rng.choice(['\n', '\r', '\r\n', '\n', ''])
    s, n = '/*', 1
    while n and len(s) < 60:
        x = rng.choice(['a', '*', '/', "'", '--', '\n', 'é', '/*', '*/', '*/', '$', '**/', '/**'])
        s += x
        n = depth(s)
    return s + '*/' * n if rng.random() < .9 else s


def depth(s):
    """open block comments after s"""
    n = i = 0
    while i < len(s):
        if s.startswith('/*', i):
            n, i = n + 1, i + 2
        elif s.startswith('*/', i) and n:
            n, i = n - 1, i + 2
        else:
            i += 1
    return n


def operator(rng):
    return ''.join(rng.choice('+-*/<>=~!@#%^&|`?') for _ in range(rng.randint(1, 6))) if rng.random() < .7 else rng.choice(['::', ':=', '..', '=>', '<=', '>=', '<>', '!=', ':', '.', ',', ';', '(', ')', '[', ']'])


def structured(rng, n):
    """well-formed constructs one after the other, sometimes damaged"""
    out = []
    for _ in range(n):
        s = ''
        for _ in range(rng.randint(1, 6)):
            k = rng.random()
            s += word(rng) if k < .25 else literal(rng) if k < .55 else number(rng) if k < .7 else operator(rng) if k < .87 else comment(rng)
            if rng.random() < .6:
                s += rng.choice([' ', '\n', '\t', '  ', '\r\n', '\f', '\v', ' \n'])
        if rng.random() < .25 and s:
            i = rng.randrange(len(s))
            s = rng.choice([s[:i], s[:i] + s[i + 1:], s[:i] + rng.choice(FRAGS) + s[i:], s[i:], s[:i] + s[i].swapcase() + s[i + 1:]])
        out.append(s)
    return out
