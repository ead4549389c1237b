"""C13: the table-driven scanner and the regular-expression scanner agree."""
import random, time
import scantab, vlib, scangen
from pool import Suite
import tree, total


def check_C13(chk):
    su = Suite(chk)
    rng = random.Random(chk.seed + 13)
    T = chk.thorough
    f = scangen.focus(T)
    fam = [x for v in f.values() for x in v]
    n = 40000 if T else 5000
    ins = rng.sample(fam, min(len(fam), n)) + scangen.boundaries() + rng.sample(scangen.pairs(), 20000 if T else 2500)
    ins += scangen.randoms(rng, n) + scangen.utf8_randoms(rng, n // 2) + scangen.structured(rng, n // 2) + rng.sample(total.chars(False), 20000 if T else 2500)
    cover = [x for x in su.cover() if su.realisable(x)]
    for x in (cover if T else rng.sample(cover, 1200)):
        ins.append(su.layout(x, rng, 'mixed')[0])
        if rng.random() < .3:
            ins.append(total.mutate_text(ins[-1], rng))
    ins += tree.odd_inputs(rng, 100)
    ins = list(dict.fromkeys(ins))
    t = time.time()
    a = su.parse(ins, 'default')
    b = su.parse(ins, 'regex', timeout=800)
    chk.log(len(ins), 'inputs, regex engine took %.1f s' % (time.time() - t))
    tree.agree(chk, ins, a, b, 'p', 'parses of the two engines', key='engines:')
    (ba, ha, _), (bb, hb, _) = su.binary('default'), su.binary('regex')
    if ha and hb:
        # token kinds that never meet in one tree
        ta, tb = vlib.harness(ba, 'tokens', ins, timeout=300), vlib.harness(bb, 'tokens', ins, timeout=800)
        num = {}

        def as_tree(o):
            if o['r'] != 'ok':
                return o
            return {'r': 'ok', 'ev': [[num.setdefault(k, len(num)), s, e] for k, s, e in o['s']]}
        tree.agree(chk, ins, [as_tree(o) for o in ta], [as_tree(o) for o in tb], 't', 'scans of the two engines', key='engines:')
    else:
        chk.assumptions.append('the token hook did not build on this tree; scans were compared only through parse()')
    # all strings, rule by rule: regular expression = pattern = automaton
    scantab.regexes(chk, bb)
    scantab.automata(chk, ba, scantab.pinned(), 'scan.l')
    cls = {}
    for o in a:
        cls[o['r']] = cls.get(o['r'], 0) + 1
    chk.cov['inputs'] = len(ins)
    chk.cov['outcomes'] = cls
    chk.sample({'input': ins[len(ins) // 2], 'outcome': a[len(ins) // 2]['r']})
