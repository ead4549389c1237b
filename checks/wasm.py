"""C20 and C23: the WebAssembly wrapper and the command-line tool."""
import os, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib, scangen
from pool import Suite
import tree, total, scale

TEXT = {'error': 'Error: ', 'scanerror': 'ScanError { message: ', 'close': ' }', 'report': 'ScanReport(ScanReport { message: ', 'detail': ', detail: ',
        'position': ', position_in_bytes: ', 'close2': ' })', 'parseerror': 'ParseError { message: ', 'start': ', start_byte_pos: ', 'end': ', end_byte_pos: ',
        'Scan': 'ScanError {', 'Report': 'ScanReport(', 'Inner': 'ScanReport {', 'Parse': 'ParseError {', 'message': 'message: ', 'detail_': 'detail: ', 'position_': 'position_in_bytes: ',
        'start_': 'start_byte_pos: ', 'end_': 'end_byte_pos: '}


def preorder(ev):
    """[depth, kind, start, end, leaf, text] in preorder from the postorder"""
    st = []
    for x in ev:
        if isinstance(x[3], list):
            st.append((x[0], x[1], x[2], 1, x[3], []))
        else:
            n = x[3]
            ch = st[len(st) - n:] if n else []
            if n:
                del st[len(st) - n:]
            st.append((x[0], x[1], x[2], 0, [], ch))
    out, work = [], [(0, st[0])]
    while work:
        d, (k, s, e, leaf, tx, ch) = work.pop()
        out.append([d, k, s, e, leaf, tx])
        work += [(d + 1, c) for c in reversed(ch)]
    return out


PRINTABLE = set('é日本語ñüßЖ\U0001F600')


def plain(x):
    return all(ord(c) < 128 or c in PRINTABLE for c in x)


def record(o, out, cli=0, other=0):
    return {'r': o['r'], 'pre': preorder(o['ev']) if o['r'] == 'ok' else [], 'm': list(o.get('m', '').encode()), 'd': list(o.get('d', '').encode()),
            'p': o.get('p', 0), 's': o.get('s', 0), 'e': o.get('e', 0), 'lines': [list(l) for l in out.split(b'\n')], 'cli': cli, 'other': other}


def decide(chk, su, recs, keep):
    names = vlib.kind_names(su.binary()[0])
    kinds = [list(names.get(i, '?').encode()) for i in range(max(names) + 1)]
    for lo in range(0, len(recs), 10000):
        part = recs[lo:lo + 10000]
        tot, prints = vlib.tlc_shards('Render', [{'data': part, 'kinds': kinds, 'text': {k: list(v.encode()) for k, v in TEXT.items()}}], chk.pid,
                                      workers=vlib.NCPU, heap='16g', timeout=3000 if chk.thorough else 700)
        chk.add_tlc(tot, len(part))
        for p in prints[0]:
            if p[0] != 'MISMATCH':
                raise vlib.ToolError('unexpected TLC output %r' % (p,))
            x, out = keep[lo + p[1] - 1]
            sh = lambda v: bytes(v).decode(errors='replace') if all(isinstance(c, int) and c < 256 for c in v) else v
            chk.violation('input %r: line %d is %r, specification %r' % (x[:200], p[2], sh(p[4]), sh(p[3])), {'input': x, 'output': out.decode(errors='replace')[:5000]}, key='render:' + x)
    chk.cov['inputs'] = len(recs)
    chk.cov['trees'] = sum(r['r'] == 'ok' for r in recs)
    chk.cov['errors'] = sum(r['r'] != 'ok' for r in recs)
    chk.cov['lines'] = sum(len(r['lines']) for r in recs)
    x, out = keep[len(keep) // 2]
    chk.sample({'input': x, 'output': out.decode(errors='replace')[:600]})


def inputs_of(su, rng, T):
    ins = ['', ' ', ';', 'select 1', '日本', "'", '"', '""', '/*', '\x00', '\x01', "select '\x01\x7f\t\r\n\x0b\x1f'", "select '\\'", 'select "a""b"']
    for n in range(15, 40):
        for c in ('x', 'é', '日', '\U0001F600', '"', '\n'):
            for pad in range(4):
                ins.append("select '" + 'a' * pad + (c * n) + "'")
        ins.append('select 1' + ' ' * n + '+ 2')
        ins.append('/*' + '*' * n + '*/')
        ins.append('--' + '-' * n)
    cover = [x for x in su.cover() if su.realisable(x)]
    for x in (cover if T else rng.sample(cover, 3000)):
        ins.append(su.layout(x, rng, 'mixed')[0])
        if rng.random() < .5:
            ins.append(su.layout(su.mutate(x, rng), rng, 'mixed')[0])
        if rng.random() < .3:
            ins.append(total.mutate_text(ins[-1], rng))
    ins += scangen.randoms(rng, 20000 if T else 2500) + scangen.boundaries()[::(1 if T else 8)] + tree.odd_inputs(rng, 100)
    ins += [total.FAMILIES[k](n) for k in total.FAMILIES for n in (2, 40)]
    return [x for x in dict.fromkeys(ins) if plain(x)]


def sizable(su, rng):
    """large inputs: the end, an error or what follows lies far behind"""
    out = []
    for n in (70000, 1200000):
        for x in ["select '" + 'x' * n + "'", '/*' + 'é' * (n // 2) + '*/ select 1', ' ' * n + 'select 1', 'select 1' + '\n' * n]:
            out += [x + e for e in rng.sample([' ', '\n', '\n\n', '', ';', ' from from', ' (', " 'a", ' "', '\x00', ' /* ', ' 1a', ' {', '; select 2 '], 5 if n < 100000 else 2)]
    out += [c[0] for c in scale.nested(su, 60)] + [c[0] for c in scale.statements(su, 60)] + [c[0] for c in rng.sample(scale.long_prefix(su, 300), 40)]
    return out


def check_C20(chk):
    su = Suite(chk)
    rng = random.Random(chk.seed + 20)
    ins = inputs_of(su, rng, chk.thorough) + sizable(su, rng)
    b, _ = vlib.build_harness('wasm')
    got = vlib.harness(b, 'x', ins, timeout=300)
    obs = su.parse(ins, mode='parsetext')
    chk.log(len(ins), 'inputs')
    recs, keep = [], []
    for x, g, o in zip(ins, got, obs):
        if o['r'] not in ('ok', 'err', 'rep', 'syn'):
            continue          # the parser's own fault (C02)
        out = bytes.fromhex(g) if isinstance(g, str) else b'<panic>'
        recs.append(record(o, out))
        keep.append((x, out))
    decide(chk, su, recs, keep)


def tool(chk):
    """the command-line tool, built from the working tree outside of it"""
    target = os.path.join(vlib.WORK, 'target-cli')
    copy = os.path.join(vlib.WORK, 'cli-%d' % os.getpid())
    shutil.rmtree(copy, ignore_errors=True)
    try:
        shutil.copytree(os.path.join(vlib.REPO, 'crates'), copy + '/crates', ignore=shutil.ignore_patterns('target', '.git'))
        for f in ('Cargo.toml', 'Cargo.lock', 'LICENSE'):
            if os.path.exists(os.path.join(vlib.REPO, f)):
                shutil.copy(os.path.join(vlib.REPO, f), copy)
        rc, out = vlib.sh(['cargo', 'build', '--release', '--offline', '-p', 'postgresql-cst-parser', '--bin', 'parse', '--target-dir', target], 800, cwd=copy, env=vlib.cargo_env())
        if rc:
            raise vlib.ToolError('cannot build the tool:\n' + out[-2000:])
        b = os.path.join(chk.work, 'parse')
        shutil.copy2(os.path.join(target, 'release/parse'), b)
        return b
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def check_C23(chk):
    su = Suite(chk)
    rng = random.Random(chk.seed + 23)
    ins = inputs_of(su, rng, chk.thorough)
    rng.shuffle(ins)
    ins = ins[:None if chk.thorough else 5000]
    # long inputs: pipes are read in pieces
    ins += ['select ' + ', '.join(['a%d' % k for k in range(n)]) for n in (60, 150)] + ['select ' + ' ' * n + '1 /*' + 'x\n' * n + '*/' for n in (2000, 4095, 30000, 70000)] + ["select '" + 'é' * n + "'" for n in (4090, 4095, 4096, 4097, 32767, 40000)]
    ins += ['select 1' + e for e in ('\n', '\r\n', '\n\n', ' ', '\t', ';\n', '\n;', '\x0c')] + ['\n', '\r\n', '\nselect 1', "'", "'\n", '--', '--\n', '/*', '/*\n*/\n']
    ins += sizable(su, rng)
    b = tool(chk)
    obs = su.parse(ins, mode='parsetext')

    def one(x):
        try:
            p = subprocess.run([b], input=x.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            return p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return b'<timeout>', b''
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        got = list(ex.map(one, ins))
    chk.log(len(ins), 'inputs')
    recs, keep = [], []
    for x, (so, se), o in zip(ins, got, obs):
        if o['r'] not in ('ok', 'err', 'rep', 'syn'):
            continue
        out, other = (so, se) if o['r'] == 'ok' else (se, so)
        recs.append(record(o, out, 1, len(other)))
        keep.append((x, out))
    decide(chk, su, recs, keep)
