"""C14 (expansion is deterministic) and C15 (the notation): the whole macro, run on symbolic token sequences."""
import os
from common import *
import fam_b
from grammars import CAT

WHAT = {
    150: 'C15: a text in the notation is refused', 151: 'C15: a text is read as something else than it says', 152: 'C15: a text outside the notation is accepted',
    153: 'C15: the text of a terminal is not what the string says', 154: 'C15: declarations in the notation are refused', 155: 'C15: a grammar without, or with two, of what must be declared once is accepted',
    156: 'C15: where an item stands makes a difference', 157: 'C15: two ways to write the same grammar give different parsers', 158: 'C15: a terminal is taken for another, or not found',
    159: 'the harness does not read its own text',
    160: 'C14: a grammar is accepted once and then refused', 161: 'C14: the same grammar gives another parser the next time',
}
PLACES = ['the name of a non-terminal', 'the name of a public non-terminal', 'a symbol', 'a binder', 'a mutable binder', 'the name of the token type', 'a lifetime', 'a type declaration', 'a pattern', 'a field', 'a tuple pattern',
          'the first word']
OPS = ['leave out', 'double', 'swap with the next', 'replace', 'insert before', 'end at']


def build_d(prop, parts_list):
    name = 'h_%s' % prop.lower()
    d = os.path.join(BUILD, name)
    errs = None
    for parts in parts_list:
        fam_b.write_crate(d, name, parts, True)
        ll, so, errs = cargo_crate(d, name)
        if errs is None:
            return ll, so, parts, None
        log('harness (%s) does not compile: %s' % (', '.join(parts), errs[0]))
    raise CheckError('the macro does not compile in the harness: %s' % errs[:3])


def main15():
    c = Check('C15')
    quick = TIER == 'quick'
    ll, so, parts, _ = build_d('C15', [['ht', 'hj=hj_in', 'hl15'], ['ht', 'hj=hj_out', 'hl15']])
    inside = 'hj=hj_in' in parts
    if not inside:
        c.notes.append('the syntax tree changed, the harness on it does not compile: only refusals and equal expansions are judged')
    # the other judge runs the whole macro: smaller bounds
    k = 0 if inside else 1
    free = [(1, 5 - k), (2, 4 - k), (3, 5 - k), (4, 1), (5, 1)] if quick else [(1, 6 - k), (2, 5), (3, 6 - k), (4, 2), (5, 1)]
    es = [('c_free', list(x)) for x in free]
    for b in range(6):
        es.append(('c_text', [b]))
        for op in range(6):
            es.append(('c_edit', [b, op, 0, 1000]))
    es += [('c_prods', list(x)) for x in ([(0, 1, 1, 1), (0, 0, 0, 7), (1, 1, 1, 1), (2, 0, 0, 7), (2, 1, 0, 1), (1, 2, 0, 2), (1, 3, 0, 1)] if quick else
                                         [(0, 1, 1, 7), (1, 1, 1, 7), (1, 1, 2, 1), (2, 1, 0, 2), (1, 3, 0, 2), (1, 2, 0, 7), (3, 0, 0, 3)])]
    es += [('c_items', list(x)) for x in ([(1, 9), (2, 1)] if quick else [(1, 9), (2, 2)])]
    es += [('c_pats', list(x)) for x in ([(1, 1, 1), (2, 0, 1), (1, 2, 1)] if quick else [(1, 1, 2), (2, 0, 1), (1, 2, 1)])]
    for pl in range(len(PLACES)):
        for n in range(1, 9):
            es.append(('c_word', [pl, n, 0]))
            if pl in (7, 11) or n in (4, 5):
                es.append(('c_word', [pl, n, 1]))
    es += [('c_string', list(x)) for x in ([(0, 0), (1, 1), (2, 2), (3, 0)] if quick else [(0, 0), (1, 1), (2, 2), (4, 0), (3, 3)])]
    es += [('c_string2', list(x)) for x in ([(0, 0), (1, 0), (1, 1)] if quick else [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)])]
    es += [('c_decls', [n]) for n in range(0, 5 if quick else 6)]
    es += [('c_forms', [0])]
    # the long ones with all processors first
    big = {('c_free', 0), ('c_prods', 0), ('c_items', 0), ('c_pats', 0), ('c_forms', 0), ('c_string2', 0)}
    first = [e for e in es if (e[0], 0) in big]
    c.explore(ll, so, first, jobs=8, par=1, timeout=600 if quick else 6000)
    c.explore(ll, so, [e for e in es if (e[0], 0) not in big], timeout=400 if quick else 3000)

    def describe(r, v):
        what = WHAT.get(int(v['key'][7:])) if v['key'].startswith('assert#') else 'C15: the front end panics on a text in the notation: ' + v['msg']
        a = r['args']
        where = {'c_word': lambda: 'any word of %d letters as %s' % (a[1], PLACES[a[0]]), 'c_edit': lambda: 'text %d, %s' % (a[0], OPS[a[1]])}.get(r['entry'], lambda: '%s%s' % (r['entry'], a))()
        return '%s, choices %s: %s' % (where, [(i, x) for i, w, x in v['inputs']], what)
    c.digest(describe, validate=30)
    covers = {}
    for r in c.res:
        for m, v in r['covers'].items():
            covers[int(m)] = covers.get(int(m), 0) + v
    for m in (60, 61, 64, 65, 66) + ((63,) if inside else ()):
        c.require(covers.get(m, 0) > 0, 'no path with marker %d' % m)
    c.assumptions = ['token sequences as the compiler would hand them over (proc_macro2 in the place of proc_macro)', 'Rust types, expressions and paths inside the notation: what syn reads is right',
                     'nothing is said about separators left out or doubled, words that are keywords in some editions only, patterns of Rust that the notation does not mention',
                     'words and strings: of the letters a-z, and of printable ASCII']
    c.finish({'bounds': {'free tokens (place, number)': free, 'edits of fixed texts': '6 texts, every place, 6 kinds of edit, any of the tokens', 'words': 'up to 8 letters at 12 places', 'inside': inside},
              'queries_discharged': sum(r['queries'] for r in c.res)},
             [{'entry': r['entry'], 'args': r['args'], 'paths': r['paths'], 'choices of a path': r['samples'][-1]['inputs']} for r in c.res if r['samples']][::12])


def main14():
    import check_b
    c = Check('C14')
    quick = TIER == 'quick'
    ll, so, parts, _ = build_d('C14', [['ht', 'hl14']])
    es = [('c_twice_text', [i]) for i in range(3)]
    es += [('c_twice_free', list(x)) for x in ([(1, 2, 2, 0, 2, 1), (2, 11, 2, 0, 2, 3), (2, 21, 1, 0, 2, 3), (3, 111, 1, 0, 2, 7)] if quick else
                                               [(1, 2, 2, 0, 3, 1), (2, 11, 2, 0, 2, 3), (2, 22, 1, 0, 2, 3), (3, 111, 2, 0, 1, 7), (2, 21, 2, 0, 2, 1), (1, 3, 2, 0, 2, 1), (4, 1111, 1, 0, 2, 15)])]
    for k, g in enumerate(CAT):
        for h in check_b.holes_of(g, k, 10 if quick else 100, 0):
            es.append(('c_twice', [k] + list(h)))
    c.explore(ll, so, es, timeout=500 if quick else 5000, extra=('--limit', '2000000000'))

    def describe(r, v):
        what = WHAT.get(int(v['key'][7:])) if v['key'].startswith('assert#') else 'C14: a panic the second time: ' + v['msg']
        a = list(r['args'])
        if r['entry'] == 'c_twice_text':
            g = 'text %d' % a[0]
        else:
            rr = dict(r, entry='b_lr_sk' if r['entry'] == 'c_twice' else 'b_lr', args=[0] + a)
            g = check_b.grammar_of(rr, v['inputs'])
        return 'grammar %s: %s' % (g, what)
    c.digest(describe, validate=6)
    covers = {}
    for r in c.res:
        for m, v in r['covers'].items():
            covers[int(m)] = covers.get(int(m), 0) + v
    c.require(covers.get(70, 0) > 0, 'nothing expanded')
    c.assumptions = ['three expansions in one process: with other keys of hash maps, another clock, process number and environment, and other things in memory each time',
                     'what an expansion depends on besides these (files, other processes) is not modelled: reaching for it is reported as an error of the check',
                     'spans are not compared']
    c.finish({'bounds': {'grammars': 'shapes %s, and every catalogue grammar with one production free up to the length that gives %d variants' % ([e[1] for e in es if e[0] == 'c_twice_free'], 10 if quick else 100),
                         'expansions of each': 3}, 'queries_discharged': sum(r['queries'] for r in c.res)},
             [{'entry': r['entry'], 'args': r['args'], 'paths': r['paths'], 'choices of a path': r['samples'][-1]['inputs']} for r in c.res if r['samples']][::12])


def main17():
    import check_b
    c = Check('C17')
    quick = TIER == 'quick'
    ll, so, parts, _ = build_d('C17', [['ht', 'hl14']])
    es = [('c_ends_free', list(x)) for x in ([(1, 2, 2, 0, 2, 1), (1, 3, 2, 0, 1, 1), (2, 11, 2, 0, 2, 3), (2, 21, 2, 0, 1, 2), (3, 111, 2, 0, 1, 1), (3, 122, 1, 0, 1, 4), (4, 1111, 1, 0, 1, 1)] if quick else
                                             [(1, 3, 2, 0, 2, 1), (1, 2, 3, 0, 2, 1), (2, 21, 2, 0, 2, 2), (2, 22, 2, 0, 1, 1), (3, 111, 2, 0, 2, 7), (3, 222, 1, 0, 1, 1), (4, 1111, 2, 0, 1, 1), (5, 11111, 1, 0, 2, 1)])]
    for k, g in enumerate(CAT):
        for h in check_b.holes_of(g, k, 8 if quick else 300, 0):
            es.append(('c_ends', [k] + list(h)))
    for wide in (True, False):
        c.explore(ll, so, [e for e in es if (e[0] == 'c_ends_free') == wide], jobs=8 if wide else 1, par=1 if wide else 8, timeout=600 if quick else 5000, extra=('--limit', '3000000000'))

    def describe(r, v):
        rr = dict(r, entry='b_lr_sk' if r['entry'] == 'c_ends' else 'b_lr', args=[0] + list(r['args']))
        return 'grammar %s: C17: the expansion does not end (%s)' % (check_b.grammar_of(rr, v['inputs']), v['msg'])
    c.digest(describe, validate=6)
    covers = {}
    for r in c.res:
        for m, v in r['covers'].items():
            covers[int(m)] = covers.get(int(m), 0) + v
    c.require(covers.get(71, 0) > 0, 'nothing expanded')
    most = max([r['max_span'] for r in c.res] or [0])
    c.assumptions = ['not ending is: more than 500000000 instructions for one expansion (the most met here: %d)' % most]
    c.finish({'bounds': {'grammars': 'shapes %s, and every catalogue grammar with one production free up to the length that gives %d variants' % ([e[1] for e in es if e[0] == 'c_ends_free'], 8 if quick else 300)},
              'instructions of the longest expansion': most, 'queries_discharged': sum(r['queries'] for r in c.res)},
             [{'entry': r['entry'], 'args': r['args'], 'paths': r['paths'], 'choices of a path': r['samples'][-1]['inputs']} for r in c.res if r['samples']][::12])
