"""C11: token patterns."""
import os
import shutil
import time
from concurrent.futures import ThreadPoolExecutor
from common import *
import fam_a
import patterns

WHAT = {
    140: 'a sequence with an unusable token is accepted', 141: 'a sequence of usable tokens is rejected', 142: 'a token is taken for another terminal than the first that matches',
    143: 'a symbol is bound to other components than selected', 144: 'the error is not at the first unusable token', 145: 'the error text names another terminal', 146: 'wrong list of expected tokens',
    147: 'a lexer error out of nothing',
}


def build(name, mods, extra):
    """mods: {name: text}; modules that do not compile are left out. Returns (ll, so, names, {name: messages})"""
    d = os.path.join(BUILD, name)
    left, refused = list(mods), {}
    for _ in range(6):
        fam_a.write_crate(d, name, [('g_' + n, mods[n]) for n in left], extra)
        ll, so, errs = cargo_crate(d, name)
        if errs is None:
            return ll, so, left, refused
        bad = {}
        for pkg, files, msg in errs:
            if pkg != name:
                raise CheckError('%s does not compile: %s' % (pkg, msg))
            for f in files:
                if f.startswith('g_') and f[2:-3] in left:
                    bad.setdefault(f[2:-3], []).append(msg)
        if not bad:
            raise CheckError('the harness does not compile: %s' % errs[:3])
        for n, ms in bad.items():
            left.remove(n)
            refused[n] = ms
        if not left:
            raise CheckError('nothing compiles: %s' % errs[:3])
    raise CheckError('the harness does not compile')


def main11():
    c = Check('C11')
    quick = TIER == 'quick'
    pats = {p[0]: p for p in patterns.PATS}
    ll, so, left, refused = build('h_c11', {n: patterns.module(p) for n, p in pats.items()}, ['hl11'])
    log('built', len(left), 'token types; refused:', sorted(refused))
    for n, ms in refused.items():
        c.violations.append(('token patterns %s: no parser: %s' % (n, ms[0]), {'grammar': patterns.parser_text(pats[n]), 'compiler': ms[:5]}))
    n = 2 if quick else 4
    c.explore(ll, so, [('c_' + x, [n]) for x in left], timeout=400 if quick else 3000)

    def describe(r, v):
        what = WHAT.get(int(v['key'][7:])) if v['key'].startswith('assert#') else v['msg']
        return 'token patterns %s: C11: %s; token fields %s' % (r['entry'][2:], what, [(i, x) for i, w, x in v['inputs']])
    c.digest(describe)
    covers = {}
    for r in c.res:
        for k, v in r['covers'].items():
            covers[int(k)] = covers.get(int(k), 0) + v
    for k in (50, 51, 52):
        c.require(covers.get(k, 0) > 0, 'no path with marker %d' % k)
    c.assumptions = ['token types and patterns: the catalogue in /verif/lib/patterns.py (%d), expanded by the real macro' % len(left),
                     'up to %d tokens of any variant with any payload bytes; strings among a few fixed ones' % n, 'what a token is and what its parts are is said by hand-written code next to each type']
    c.finish({'bounds': {'tokens': n, 'token types': len(left)}, 'queries_discharged': sum(r['queries'] for r in c.res)},
             [{'token type': r['entry'][2:], 'paths': r['paths'], 'fields of one path': r['samples'][-1]['inputs']} for r in c.res if r['samples']])


# the macro itself optimised (a profile of dependencies of build kind)
PROFILE = '''
[profile.release.build-override]
opt-level = 2
'''
SIZES = [('CONC', 1), ('MAXN', 700), ('MAXST', 1000), ('MAXARGS', 4096)]


def main13():
    import check_a
    import wide
    c = Check('C13')
    quick = TIER == 'quick'
    # (grammar, bound, entries, may be refused)
    gs = [(wide.terms(300), 2, ['S'], False),
          (wide.long(300), 300, ['S'], False),
          (wide.nts(300), 3 if quick else 4, ['S'], False),
          (wide.pubs(300), 4, ['N0', 'N127', 'N128', 'N199', 'N254', 'N255', 'N256', 'N299'], False),
          (wide.states(225, 300), 303, ['S'], False),
          (wide.prods(66000), 4, ['S'], True),
          (wide.empties(66000), 4, ['S'], True)]
    if not quick:
        gs += []
    info, todo = {}, []
    built = []
    only = os.environ.get('VERIF_ONLY')
    for g, n, roots, may in gs:
        if only and g.name not in only.split(','):
            continue
        ns = [x[0] for x in g.nts]
        t0 = time.time()
        text = fam_a.module(g, [ns.index(r) for r in roots], n)
        t1 = time.time()
        todo.append((g, n, roots, may, text))
        log(g.name, 'module written', round(t1 - t0, 1))

    def one(x):
        g, n, roots, may, text = x
        name = 'h_c13_' + g.name
        d = os.path.join(BUILD, name)
        fam_a.write_crate(d, name, [('g_' + g.name, text)], (), SIZES, PROFILE)
        t0 = time.time()
        r = cargo_crate(d, name, 'target_' + name)
        log(g.name, 'built' if r[0] else 'refused', round(time.time() - t0, 1))
        return r
    refused = {}
    # the ones that should be refused first, they are the slowest if they are not
    todo.sort(key=lambda x: not x[3])
    with ThreadPoolExecutor(5) as pool:
        for x, (ll, so, errs) in zip(todo, pool.map(one, todo)):
            g, n, roots, may, text = x
            if errs is not None:
                bad = [m for pkg, files, m in errs if pkg == 'h_c13_' + g.name and 'g_%s.rs' % g.name in files]
                if not bad:
                    raise CheckError('the harness does not compile: %s' % errs[:3])
                bad.sort(key=lambda m: 0 if 'macro panicked' in m or 'custom attribute' in m else 1)
                refused[g.name] = bad[0]
                if not may:
                    c.violations.append(('large grammar %s: no parser for it: %s' % (g.name, bad[0]), {'grammar': fam_a.grammar_text(g)[:2000], 'compiler': bad[:5]}))
                else:
                    c.notes.append('%s: refused at compile time: %s' % (g.name, bad[0]))
            else:
                built.append((x, ll, so))
    for x, ll, so in built:
        g, n, roots, may, text = x
        es = []
        for r in roots:
            e = 'a_%s_%s' % (g.name, r)
            info[e] = (g, [y[0] for y in g.nts].index(r), n)
            es.append((e, [7, n]))
        t0 = time.time()
        c.explore(ll, so, es, timeout=500 if quick else 3000)
        log(g.name, 'explored', round(time.time() - t0, 1))

    def describe(r, v):
        g, root, n = info[r['entry']]
        what = check_a.WHAT.get(int(v['key'][7:])) if v['key'].startswith('assert#') else 'C06: ' + v['msg']
        toks = check_a.tokens_of(g, v['inputs'])
        return 'large grammar %s, entry %s, free tokens [%s]: %s' % (g.name, g.nts[root][0], toks if len(toks) < 300 else toks[:150] + ' ... ' + toks[-140:], what)
    c.digest(describe, validate=20)
    covers = check_a.covers_of(c)
    for k in (1, 2, 4, 6, 7):
        c.require(covers.get(k, 0) > 0, 'no path with marker %d' % k)
    c.assumptions = ['the large grammars of /verif/lib/wide.py, expanded by the real macro (built with optimisation)',
                     'token kinds are decided one by one along each path (every kind that leads to another outcome is taken); payloads stay symbolic; for the longest inputs only the head and the tail are free']
    c.finish({'bounds': {e: {'tokens': n, 'fixed tokens': [g.head, g.tail] if g.head < n else None} for e, (g, r, n) in info.items()},
              'refused': refused, 'queries_discharged': sum(r['queries'] for r in c.res)},
             [{'grammar': info[r['entry']][0].name, 'entry': r['entry'], 'paths': r['paths'], 'an input of one path': check_a.tokens_of(info[r['entry']][0], r['samples'][-1]['inputs'])[:300]} for r in c.res if r['samples']])
