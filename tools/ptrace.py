"""Records for ParseTrace.tla and the comparison with TLC."""
import os, random
import vlib
from spec import Spec

TRIVIA = (-1, -2, -3)


def project(ev, kinds, trivia):
    """the harness's postorder [kind,start,end(,n)] in symbol numbers; without trivia leaves the
    children counts are those of the rest"""
    out = []
    if trivia:
        for x in ev:
            out.append([kinds.get(x[0], -99), x[1], x[2]] if len(x) == 3 else [kinds.get(x[0], -99), x[3]])
        return out
    st = []           # counts are recomputed: a stack of 'is trivia' flags of finished subtrees
    for x in ev:
        k = kinds.get(x[0], -99)
        if len(x) == 3:
            st.append(k in TRIVIA)
            if k not in TRIVIA:
                out.append([k, x[1], x[2]])
        else:
            n = x[3]
            ch = st[len(st) - n:] if n else []
            if n:
                del st[len(st) - n:]
            st.append(False)
            out.append([k, sum(1 for c in ch if not c)])
    return out


def layout(texts, seps):
    """join token texts; seps[i] in front of token i, seps[len] at the end; returns input and ranges (bytes)"""
    out, pos, rng = [], 0, []
    for x, s in zip(texts, seps):
        out.append(s)
        pos += len(s.encode())
        n = len(x.encode())
        rng.append((pos, pos + n))
        out.append(x)
        pos += n
    out.append(seps[len(texts)])
    return ''.join(out), rng


def record(toks, inp, mode, obs, kinds):
    """toks: [[symbol, start, end]] with comments, or None: the specification scans the input"""
    b = inp.encode()
    r = {'scan': toks is None, 'b': list(b) if toks is None else [], 'toks': toks or [], 'len': len(b), 'mode': mode,
         'r': obs['r'], 's': 0, 'e': 0, 'ev': [], 'm': obs.get('m', ''), 'p': obs.get('p', 0)}
    if obs['r'] == 'syn':
        r['s'], r['e'] = obs['s'], obs['e']
    if obs['r'] == 'ok' and mode != 'accept':
        r['ev'] = project(obs['ev'], kinds, mode == 'trivia')
    return r


def run(records, tables, name, workers=None, heap='8g', timeout=800, module='ParseTrace'):
    """returns (TlcResult, {record index: mismatch})"""
    shards = [records]
    tot, prints = vlib.tlc_shards(module, shards, name, workers=workers or vlib.NCPU, heap=heap, timeout=timeout,
                                  env={'TABLES': tables})
    bad = {}
    for p in prints[0]:
        if p and p[0] == 'MISMATCH':
            bad.setdefault(p[1] - 1, p[2:])
        else:
            raise vlib.ToolError('cannot read TLC output: ' + str(p)[:500])
    return tot, bad
