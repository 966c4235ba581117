"""Checks on the generator's own analysis: C07 (first sets), C08 (tables), C09 (refusals).

The modules of /repo/src are compiled into a harness crate and executed with symbolic grammars.
"""
import os
from common import *
import fam_b
from grammars import CAT, MORE, Grammar

WHAT = {
    70: 'C07: a token is said to start a phrase that does not',
    71: 'C07: a token that can start a phrase is missing',
    72: 'C07: a non-terminal is said to be possibly empty, it is not',
    73: 'C07: a non-terminal that can be empty is not known to be',
    78: 'a state number is out of range',
    79: 'C08: two canonical states are merged, or one is split',
    80: 'C08: an entry point is missing or superfluous',
    81: 'C08: a shift of the canonical table is missing',
    82: 'C08: a decision where the canonical table has none',
    83: 'C08: a decision of the canonical table is missing',
    84: 'C08: another decision than that of the canonical table',
    85: 'C08: a goto of the canonical table is missing',
    86: 'C08: a reduction carries the action of another production',
    87: 'C08: a goto where the canonical table has none',
    88: 'C08: a canonical state is missing',
    89: 'C08: there are more states than canonical ones',
    90: 'C09: a grammar in which two reductions compete is not refused',
    93: 'C09: a grammar in which two reductions compete is not refused (by the whole macro)',
    94: 'C09: a conflict-free grammar is refused (by the whole macro)',
    91: 'C09: a shift competing with a reduction is not taken (or is missing)',
    92: 'C09: a goto is missing',
}

# (non-terminals, productions of each as digits, longest, shortest, terminals, public, flags 1 sorted 2 entry first)
FIRST_Q = [(2, 22, 2, 0, 2), (3, 111, 3, 0, 2), (5, 11111, 1, 0, 1), (2, 11, 4, 0, 2), (3, 122, 2, 0, 1), (3, 211, 2, 0, 2), (3, 112, 2, 0, 2), (1, 3, 3, 0, 2),
           (2, 33, 1, 0, 2), (4, 1111, 2, 0, 1)]
FIRST_T = FIRST_Q + [(6, 111111, 1, 0, 1), (2, 33, 2, 0, 1), (2, 23, 2, 0, 2), (2, 32, 2, 0, 2), (3, 222, 1, 0, 2), (3, 222, 2, 0, 1), (7, 1111111, 1, 0, 1), (4, 1221, 1, 0, 2), (4, 2112, 1, 0, 2),
                     (3, 221, 2, 0, 2), (3, 111, 4, 0, 1), (5, 11111, 2, 0, 1), (4, 1111, 2, 0, 2), (2, 21, 3, 0, 2), (2, 12, 3, 0, 2), (4, 2222, 1, 0, 1)]
LR_Q = [(1, 2, 2, 0, 2, 1, 0), (1, 3, 2, 0, 2, 1, 0), (1, 2, 3, 0, 2, 1, 0), (1, 2, 2, 0, 3, 1, 2), (2, 12, 2, 0, 2, 3, 0), (2, 21, 2, 0, 2, 1, 0), (2, 11, 3, 0, 1, 3, 0),
        (3, 111, 2, 0, 1, 1, 0), (3, 111, 2, 0, 1, 6, 0), (2, 22, 2, 0, 2, 1, 1), (2, 22, 1, 0, 2, 3, 2), (4, 1111, 1, 0, 2, 1, 0), (3, 121, 1, 0, 2, 7, 0)]
LR_T = LR_Q + [(2, 22, 2, 0, 2, 1, 0), (2, 22, 2, 0, 2, 3, 0), (2, 22, 2, 0, 2, 2, 2), (1, 4, 2, 0, 2, 1, 1), (1, 2, 4, 0, 2, 1, 0), (1, 3, 3, 1, 2, 1, 1), (2, 12, 3, 0, 1, 3, 0), (2, 21, 3, 0, 1, 1, 0),
               (3, 111, 3, 0, 1, 1, 0), (3, 111, 2, 0, 2, 7, 0), (3, 121, 2, 0, 1, 1, 0), (3, 211, 2, 0, 1, 1, 0), (3, 112, 2, 0, 1, 5, 0), (4, 1111, 2, 0, 1, 1, 0), (3, 222, 1, 0, 2, 1, 1), (5, 11111, 1, 0, 2, 1, 0)]


def holes_of(g, k, cap, cap2):
    """(hole bit set, longest, shortest): single productions, and pairs when cap2"""
    n = len(g.nts)
    s = n + len(g.terms)
    lens = [len(p) for a in range(n) for p in g.gram.prods[a]]

    def opts(ml):
        return sum(s ** l for l in range(ml + 1))
    out = []
    for i in range(len(lens)):
        ml = 0
        while opts(ml + 1) <= cap and ml < 5:
            ml += 1
        if ml:
            out.append((1 << i, ml, 0))
        # and the length as it is, if that is longer
        if lens[i] > ml and s ** lens[i] <= cap * 4 and (s <= 9 or cap > 500):
            out.append((1 << i, lens[i], lens[i]))
    if cap2:
        ml = 0
        while opts(ml + 1) ** 2 <= cap2 and ml < 5:
            ml += 1
        if ml:
            for i in range(len(lens)):
                for j in range(i):
                    out.append((1 << i | 1 << j, ml, 0))
    return out


def show(nnt, nt, pubs, prods):
    """prods: list per non-terminal of lists of symbols (user numbers)"""
    o = []
    for a in range(nnt):
        o.append('%sN%d = %s' % ('pub ' if pubs >> a & 1 else '', a, ' | '.join(' '.join('N%d' % x if x < nnt else '"%s"' % chr(97 + x - nnt) for x in p) or '%' for p in prods[a])))
    return '; '.join(o)


def grammar_of(r, inputs):
    """the grammar a path's inputs stand for, as text"""
    a = list(r['args'])
    iv = {i: v for i, w, v in inputs}
    if r['entry'].startswith('b_lr'):
        a = a[1:]
    if r['entry'].endswith('_sk'):
        k, holes, ml, lo = a[:4]
        g = CAT[k]
        nnt, nt = len(g.nts), len(g.terms)
        np = [len(x[3]) for x in g.nts]
        pubs = sum(1 << i for i in g.gram.pubs)
        base = [[s + nnt if s >= 0 else ~s for s in p] for x in range(nnt) for p in g.gram.prods[x]]
    else:
        nnt, npd, ml, lo, nt, pubs = a[:6]
        np = [int(c) for c in str(npd).zfill(nnt)]
        base, holes = None, 0
    prods, i = [], 0
    for x in range(nnt):
        ps = []
        for _ in range(np[x]):
            if base is None or holes >> i & 1:
                l = lo + iv.get(1000 + i, 0)
                ps.append([iv.get(i * 8 + j, 0) for j in range(l)])
            else:
                ps.append(base[i])
            i += 1
        prods.append(ps)
    return show(nnt, nt, pubs, prods)


def build_b(prop, parts):
    """Builds the harness crate; None when the internal interfaces it uses are not there."""
    name = 'h_%s' % prop.lower()
    d = os.path.join(BUILD, name)
    for whole in (True, False):
        fam_b.write_crate(d, name, parts, whole)
        ll, so, errs = cargo_crate(d, name)
        if errs is None:
            return ll, so, None
        log('harness (%s) does not compile: %s' % ('whole crate' if whole else 'modules', errs[0]))
    return None, None, errs


# shapes for the whole macro: (non-terminals, productions each, longest, shortest, terminals, public)
TEXT_Q = [(1, 2, 2, 0, 2, 1), (2, 11, 2, 0, 1, 3), (2, 21, 2, 0, 1, 1), (2, 20, 2, 0, 1, 1), (3, 110, 1, 0, 1, 1), (3, 111, 2, 1, 1, 2)]
TEXT_T = TEXT_Q + [(1, 3, 2, 0, 2, 1), (2, 21, 2, 0, 2, 2), (2, 30, 2, 0, 2, 1), (3, 111, 2, 0, 1, 5), (3, 222, 1, 0, 1, 1), (4, 1110, 1, 0, 1, 1)]


def whole_refusals(c):
    """C09 on the whole macro: symbolic grammars, written out and expanded."""
    import check_d
    quick = TIER == 'quick'
    ll, so, parts, _ = check_d.build_d('C09t', [['hr', 'ht', 'hl14', 'hl09']])
    es = []
    for k, g in enumerate(CAT):
        if 'same' not in g.tags:
            for h in holes_of(g, k, 4 if quick else 200, 0):
                es.append(('c_refuse', [k] + list(h)))
    c.explore(ll, so, [('c_refuse_free', list(x)) for x in (TEXT_Q if quick else TEXT_T)], jobs=8, par=1, timeout=400 if quick else 5000)
    c.explore(ll, so, es, jobs=1, par=8, timeout=400 if quick else 5000)
    log('whole macro done')


def text_grammar(r, v):
    rr = dict(r, entry='b_lr_sk' if r['entry'] == 'c_refuse' else 'b_lr', args=[0] + list(r['args']))
    what = WHAT.get(int(v['key'][7:])) if v['key'].startswith('assert#') else 'C09: a conflict-free grammar is refused: ' + v['msg'] if 'panic' in v['kind'] else v['msg']
    return 'grammar [%s]: %s' % (grammar_of(rr, v['inputs']), what)


def main(prop):
    c = Check(prop)
    quick = TIER == 'quick'
    ll, so, errs = build_b(prop, ['hr', 'hb'])
    if ll is None:
        # the inside of the generator looks different: judge it from outside
        import check_a
        c.notes.append('the internal interface changed, the harness on it does not compile: %s' % (errs[:3],))
        return check_a.outside(c, prop)
    entries = []
    if prop == 'C07':
        shapes = FIRST_Q if quick else FIRST_T
        entries += [('b_first', list(s) + [0, 0]) for s in shapes]
        for k, g in enumerate(CAT):
            if 'same' in g.tags:
                continue
            for h in holes_of(g, k, 300 if quick else 5000, 0 if quick else 3000):
                entries.append(('b_first_sk', [k] + list(h) + [0]))
    else:
        what = int(prop[1:])
        shapes = list(LR_Q if quick else LR_T)
        if what == 9 and quick:
            shapes[shapes.index((2, 22, 2, 0, 2, 1, 1))] = (2, 22, 2, 0, 1, 1, 1)
        entries += [('b_lr', [what] + list(s)) for s in shapes]
        for k, g in enumerate(CAT):
            if 'same' in g.tags:
                continue
            for h in holes_of(g, k, 60 if quick else 1200, 0):
                entries.append(('b_lr_sk', [what, k] + list(h) + [0]))
    if prop == 'C09':
        import check_a
        check_a.refusals(c)
        whole_refusals(c)
    big = [e for e in entries if not e[0].endswith('_sk')]
    small = [e for e in entries if e[0].endswith('_sk')]
    limit = 400 if quick else 5000
    c.explore(ll, so, big, jobs=8, par=1, timeout=limit)
    log('shapes done')
    c.explore(ll, so, small, jobs=1, par=8, timeout=limit)

    f = None
    if prop == 'C08':
        # the tables as the generated parser carries them
        import check_a
        f = check_a.Family(c, prop, check_a.select(prop, CAT), [8], 300 if quick else 8000, 8 if quick else 14, limit, crate='C08a')

    def describe(r, v):
        if f and f.owns(r):
            return f.describe(r, v)
        if r['entry'].startswith('c_refuse'):
            return text_grammar(r, v)
        what = WHAT.get(int(v['key'][7:])) if v['key'].startswith('assert#') else ('%s: %s' % (prop, 'a conflict-free grammar is refused: ' + v['msg'] if 'panic' in v['kind'] else v['msg']))
        return 'grammar [%s]: %s' % (grammar_of(r, v['inputs']), what)
    c.digest(describe, validate=6)
    covers = {}
    for r in c.res:
        for k, v in r['covers'].items():
            covers[int(k)] = covers.get(int(k), 0) + v
    for k in {'C07': [20, 21], 'C08': [32, 9], 'C09': [30, 31, 32, 33, 34, 35, 36]}[prop]:
        c.require(covers.get(k, 0) > 0, 'no path with marker %d' % k)
    c.assumptions = [
        'grammars within the shapes listed (every choice of symbols and lengths), and the catalogue grammars with one production replaced by every production up to the stated length',
        'the modules of /repo/src are compiled as ordinary modules of a harness crate (not inside the compiler process)',
        'allocation never fails',
    ] + (f.assumptions() if f else [])
    samples = []
    for r in c.res[:60]:
        if r['samples'] and not (f and f.owns(r)):
            samples.append({'entry': r['entry'], 'args': r['args'], 'paths': r['paths'], 'a grammar of one path': grammar_of(dict(r, args=([0] if r['entry'].startswith('c_') else []) + list(r['args']), entry={'c_refuse': 'b_lr_sk', 'c_refuse_free': 'b_lr'}.get(r['entry'], r['entry'])), r['samples'][-1]['inputs'])})
    c.finish({
        'bounds': {'shapes (non-terminals, productions each, longest, shortest, terminals, public, flags)': shapes,
                   'catalogue grammars with symbolic productions': len(small), 'parsers': f.bounds() if f else {}},
        'queries_discharged': sum(r['queries'] for r in c.res),
        **({'whole macro (non-terminals, productions each, longest, shortest, terminals, public)': TEXT_Q if quick else TEXT_T} if prop == 'C09' else {}),
    }, samples)


LOWER_WHAT = {
    120: 'C12: an undeclared symbol is accepted', 121: 'C12: a terminal declared twice is accepted', 122: 'C12: the terminals are not those declared, in order',
    123: 'C12: a declaration is lost or doubled', 124: 'C12: the entry of a public non-terminal does not lead to it', 125: 'C12: the entry does not return the value of its non-terminal',
    126: 'C12: another type than declared', 127: 'C12: two declarations become one', 128: 'C12: a non-terminal nobody declared', 129: 'C12: the number of productions differs',
    130: 'C12: the number of symbols differs', 131: 'C12: a terminal became a non-terminal or the reverse', 132: 'C12: another terminal than written', 133: 'C12: another non-terminal than written',
    134: 'C12: a name is lost or added', 135: 'C12: mutability is lost or added', 136: 'C12: another name than written', 137: 'C12: a production is lost, doubled or under another non-terminal',
}
# non-terminals, productions each, longest, terminals, names to choose from, 1 names 2 binders 4 visibility 8 terminal names
LOWER_Q = [(2, 21, 1, 1, 4, 5), (2, 11, 1, 1, 3, 7), (1, 1, 2, 1, 3, 2), (1, 1, 2, 2, 4, 9), (3, 111, 1, 1, 5, 5), (2, 22, 2, 1, 3, 0), (2, 22, 1, 2, 3, 4), (1, 1, 1, 3, 5, 8), (2, 11, 2, 1, 3, 5), (3, 333, 0, 0, 4, 5),
           (1, 2, 2, 1, 2, 2), (1, 1, 4, 2, 2, 4), (2, 20, 1, 2, 4, 13),
           (2, 11, 1, 1, 15, 1), (2, 11, 1, 1, 25, 1), (1, 1, 1, 2, 15, 8), (1, 1, 1, 2, 25, 8)]
LOWER_T = LOWER_Q + [(2, 12, 1, 1, 3, 7), (2, 20, 1, 2, 5, 13), (2, 11, 2, 2, 3, 2), (3, 121, 1, 1, 5, 5), (2, 11, 2, 2, 4, 13), (1, 1, 3, 2, 3, 2), (3, 212, 1, 1, 4, 4), (2, 22, 1, 1, 3, 6), (1, 3, 2, 3, 4, 8), (3, 111, 2, 1, 3, 1)]


def main12():
    import check_a
    c = Check('C12')
    quick = TIER == 'quick'
    ll, so, errs = build_b('C12b', ['hr', 'hb', 'hl12'])
    if ll is None:
        c.notes.append('the internal interface changed, the harness on it does not compile: %s' % (errs[:3],))
        return check_a.outside(c, 'C12')
    shapes = LOWER_Q if quick else LOWER_T
    c.explore(ll, so, [('b_lower', list(s)) for s in shapes], jobs=8, par=1, timeout=300 if quick else 3000)
    log('lowering done')
    f = check_a.Family(c, 'C12', [g for g in CAT + MORE if g.tags & {'bind', 'names', 'multi'}], [3], 800 if quick else 8000, 10, 300 if quick else 2000)

    def describe(r, v):
        if f.owns(r):
            return f.describe(r, v)
        what = LOWER_WHAT.get(int(v['key'][7:])) if v['key'].startswith('assert#') else 'C12: ' + v['msg']
        return 'declarations %s %s: %s' % (r['args'], v['inputs'], what)
    c.digest(describe, validate=10)
    covers = check_a.covers_of(c)
    for k in (1, 40, 41):
        c.require(covers.get(k, 0) > 0, 'no path with marker %d' % k)
    c.assumptions = ['names are chosen among three times five per kind (with those that the generator makes up, and equal texts for terminals and non-terminals)', 'non-terminals are declared once each',
                     'repetition and fallible actions, which the generator does not support, are not used'] + f.assumptions()
    c.finish({'bounds': {'lowering (non-terminals, productions each, longest, terminals, 10 * set of names + how many of them, what is symbolic: 1 names 2 binders 4 visibility 8 terminal names)': shapes, 'parsers': f.bounds()},
              'queries_discharged': sum(r['queries'] for r in c.res)},
             [{'entry': r['entry'], 'args': r['args'], 'paths': r['paths'], 'inputs of a path': r['samples'][-1]['inputs']} for r in c.res if r['samples'] and not f.owns(r)] + f.samples(c.res)[:4])
