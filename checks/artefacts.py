"""C18: the committed artefacts match their sources, and the sources the pinned data."""
import json, os, random, shutil, threading
import vlib, toygen, scangen, scan, scantab, tree, total, lalrgen
import filter as filt
from pool import Suite


def pinned(chk):
    """gram.y and kwlist.h against the pinned data (GramFile.tla)."""
    g = json.load(open(os.path.join(vlib.DATA, 'grammar.json')))
    kw = json.load(open(os.path.join(vlib.DATA, 'keywords.json')))
    b = lambda s: list((s or '').encode())
    lv = {}
    for s, (l, a) in g['prec'].items():
        lv.setdefault(l, (a, []))[1].append(s)
    R = os.path.join(vlib.REPO, 'crates')
    d = {'text': list(open(R + '/parser-generator/resources/gram.y', 'rb').read()), 'kw': list(open(R + '/lexer-generator/resources/kwlist.h', 'rb').read()),
         'levels': [{'assoc': lv[l][0], 'syms': [b(s) for s in lv[l][1]]} for l in sorted(lv)],
         'rules': [{'lhs': b(r['lhs']), 'rhs': [b(x) for x in r['rhs']], 'prec': b(r['prec'])} for r in g['rules']],
         'words': [[b(w), b(t), b(c + '_KEYWORD'), b(l)] for w, t, c, l in kw]}
    tot, prints = vlib.tlc_shards('GramFile', [d], chk.pid + 'g', workers=1, heap='6g', timeout=600)
    chk.add_tlc(tot, 1)

    def text(v):
        if isinstance(v, list) and v and all(isinstance(c, int) for c in v):
            return bytes(v).decode(errors='replace')
        if isinstance(v, list):
            return [text(x) for x in v]
        if isinstance(v, dict):
            return {k: text(x) for k, x in v.items()}
        return v
    WHAT = {'MISSING': 'productions of the pinned grammar are missing from gram.y', 'EXTRA': 'gram.y has a production the pinned grammar does not have',
            'ABSENT': 'symbols of the pinned grammar have no productions in gram.y', 'TWICE': 'gram.y has productions of one symbol in two places', 'START': 'the start symbol is another',
            'LEVELS': 'the precedence levels of gram.y are not the pinned ones', 'UNFINISHED': 'gram.y ends within a rule', 'WORD': 'kwlist.h has a keyword that is not the pinned one',
            'NOWORD': 'keywords of the pinned list are missing from kwlist.h'}
    for p in prints[0]:
        if p[0] not in WHAT:
            raise vlib.ToolError('unexpected TLC output %r' % (p,))
        v = text(p[1])
        chk.violation('%s: %s' % (WHAT[p[0]], str(v)[:500]), {'kind': p[0], 'value': v})
    chk.cov['pinned_productions'] = len(g['rules'])
    chk.cov['pinned_keywords'] = len(kw)


def regenerate(chk, gen):
    """both generators on the committed files; a copy of the crates with what they wrote, or None"""
    res = {}

    def go(which):
        try:
            res[which] = gen.run(which, 'real', {})
        except Exception as e:
            res[which] = e
    gen.ready()
    ts = [threading.Thread(target=go, args=(w,)) for w in ('lexer-generator', 'parser-generator')]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for w, r in res.items():
        if isinstance(r, Exception):
            raise r
        if r[0] is None:
            chk.violation('%s fails on the committed files: %s' % (w, r[1]), {'generator': w, 'why': r[1]})
            return None
    copy = os.path.join(gen.dir, 'repo')
    shutil.copytree(os.path.join(vlib.REPO, 'crates'), copy + '/crates', ignore=shutil.ignore_patterns('target'))
    for f in ('Cargo.toml', 'Cargo.lock'):
        if os.path.exists(os.path.join(vlib.REPO, f)):
            shutil.copy(os.path.join(vlib.REPO, f), copy)
    dst = os.path.join(copy, toygen.CRATE, 'src')
    pd, ld = res['parser-generator'][0], res['lexer-generator'][0]
    for base, d in ((pd, ''), (ld, '')):
        src = os.path.join(base, toygen.CRATE, 'src')
        for root, _, files in os.walk(src):
            for f in files:
                shutil.copy(os.path.join(root, f), os.path.join(dst, os.path.relpath(root, src), f))
    return copy


def check_C18(chk):
    rng = random.Random(chk.seed * 100 + 18)
    T = chk.thorough
    err = []

    def side():
        try:
            pinned(chk)
        except Exception as e:
            err.append(e)
    with toygen.Generators(opt=3, limit=700) as gen:
        t = threading.Thread(target=side)
        t.start()
        copy = regenerate(chk, gen)
        t.join()
        if err:
            raise err[0]
        chk.log('generated; the grammar, precedence and keyword data read')
        if copy is None:
            return
        su = Suite(chk)
        a, hooked_a, _ = su.binary('default')
        ra, _, _ = su.binary('regex')
        try:
            b, hooked_b = vlib.build_harness('default', repo=copy, tag='regen')
            rb, _ = vlib.build_harness('regex', repo=copy, tag='regen')
        except vlib.ToolError as e:
            chk.violation('the crate with the regenerated files does not compile: %s' % str(e)[-600:], {'why': str(e)})
            return
        finally:
            shutil.rmtree(copy, ignore_errors=True)
        hooked = hooked_a and hooked_b
        # the numbering of the kinds is visible to users
        ka, kb = vlib.kind_names(a), vlib.kind_names(b)
        if ka != kb:
            d = [(i, ka.get(i), kb.get(i)) for i in range(max(len(ka), len(kb))) if ka.get(i) != kb.get(i)]
            chk.violation('the regenerated syntax kinds differ (number, committed, regenerated): %s' % d[:10], {'differences': d[:100]})
        if hooked:
            Ta, Tb = [vlib.harness(x, 'tables', ['-'], lines=True)[0] for x in (a, b)]
            n = lalrgen.tables_of(chk, [kb.get(i, '') for i in range(len(kb))], Tb, 'the regenerated tables', 'tb')
            chk.cov['regenerated_table_entries'] = n
            if any(Ta.get(k) != Tb.get(k) for k in ('act', 'go', 'rules')):
                chk.log('the committed tables are numbered differently')
                lalrgen.tables_of(chk, [ka.get(i, '') for i in range(len(ka))], Ta, 'the committed tables', 'ta')
            chk.log('tables compared')
            src = scantab.read_source(os.path.join(vlib.REPO, 'crates/lexer-generator/resources/scan.l'))
            for bin_, rx, who in ((a, ra, 'the committed scanner'), (b, rb, 'the regenerated scanner')):
                scantab.automata(chk, bin_, src, 'scan.l', who)
                scantab.regexes(chk, rx, src, who)
                scantab.keywords(chk, bin_, who)
            chk.log('scanner automata, regular expressions and keywords compared')
        # scanner: both against the specification
        ins = scan.words(chk, rng)
        ins = rng.sample(ins, 60000 if T else 9000)
        f = [x for v in scangen.focus(T).values() for x in v]
        ins += rng.sample(f, min(len(f), 60000 if T else 9000)) + scangen.pairs()[::(1 if T else 6)] + scangen.boundaries()
        ins += scangen.randoms(rng, 20000 if T else 2000) + scangen.utf8_randoms(rng, 10000 if T else 1000) + scangen.structured(rng, 10000 if T else 1000)
        ins = list(dict.fromkeys(ins))
        if hooked:
            ta, tb = vlib.harness(a, 'tokens', ins, timeout=300), vlib.harness(b, 'tokens', ins, timeout=300)
            scan.validate(chk, ins, tb, 'tokens', 's')
            num = {}

            def as_tree(o):
                if o['r'] != 'ok':
                    return o
                return {'r': 'ok', 'ev': [[num.setdefault(k, len(num)), s, e] for k, s, e in o['s']]}
            tree.agree(chk, ins, [as_tree(o) for o in ta], [as_tree(o) for o in tb], 'ts', 'scans of the committed and the regenerated crate', key='regen:')
            # and the look-ahead filter, which the parser generator copies
            fs = list(dict.fromkeys(filt.combos(su, rng, T)[::(1 if T else 3)] + filt.sequences(3)[::(1 if T else 3)] + filt.contexts(su, rng, T)[::(1 if T else 8)]))
            fa, fb = vlib.harness(a, 'tokens', fs, timeout=300), vlib.harness(b, 'tokens', fs, timeout=300)

            def as_tree(o):
                if o['r'] != 'ok':
                    return o
                return {'r': 'ok', 'ev': [[num.setdefault(k, len(num)), s, e] for k, s, e in o['f']]}
            tree.agree(chk, fs, [as_tree(o) for o in fa], [as_tree(o) for o in fb], 'tf', 'filtered tokens of the committed and the regenerated crate', key='regen:')
            chk.cov['filtered_scans'] = len(fs)
        else:
            chk.assumptions.append('the hooks did not build on this tree; scans and tables were compared only through parse()')
        chk.log(len(ins), 'scans compared')
        # parser
        ps = []
        cover = [x for x in su.cover() if su.realisable(x)]
        for x in cover if T else rng.sample(cover, min(len(cover), 2500)):
            ps.append(su.layout(x, rng, 'mixed')[0])
            if rng.random() < .5:
                ps.append(su.layout(su.mutate(x, rng), rng, 'mixed')[0])
        las = [x for x in cover if set(x) & (set(filt.KEYS) | set(filt.LA_BASE))]
        for x in las if T else rng.sample(las, min(len(las), 1200)):
            ps.append(su.layout(x, rng, 'mixed')[0])
        ps += tree.odd_inputs(rng, 200) + (ins if not hooked else rng.sample(ins, 2000))
        ps = list(dict.fromkeys(ps))
        oa, ob = vlib.harness(a, 'parse', ps, timeout=300), vlib.harness(b, 'parse', ps, timeout=300)
        tree.agree(chk, ps, oa, ob, 'p', 'parses of the committed and the regenerated crate', key='regen:')
        chk.log(len(ps), 'parses compared')
        # the regular expressions the lexer generator writes for the other engine
        qs = rng.sample(ps, min(len(ps), 20000 if T else 2500)) + rng.sample(ins, min(len(ins), 20000 if T else 2500))
        qs = list(dict.fromkeys(qs))
        oa2, ob2 = vlib.harness(ra, 'parse', qs, timeout=300), vlib.harness(rb, 'parse', qs, timeout=300)
        tree.agree(chk, qs, oa2, ob2, 'rx', 'parses of the committed and the regenerated crate (regex-match)', key='regen:')
        chk.log(len(qs), 'regex-match parses compared')
        chk.cov['regex_match_parses'] = len(qs)
    chk.cov.update(scans=len(ins), parses=len(ps), tables_looked_up=hooked)
    chk.sample({'input': ps[len(ps) // 2], 'outcome': oa[len(ps) // 2]['r']})
    chk.assumptions.append('the pinned data were read from the files of the pinned commit; there is no PostgreSQL here to compare them with')
