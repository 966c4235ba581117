"""Checks on generated parsers: C01-C06, C10 over the catalogue of grammars."""
import os
import shutil
from common import *
import fam_a
from grammars import CAT, MORE, REFUSE, Grammar

MODE = {'C07': [2, 4], 'C08': [1, 2, 3, 4, 8], 'C09': [2], 'C12': [3], 'C01': [1], 'C02': [2], 'C03': [3], 'C04': [4], 'C05': [5], 'C06': [6], 'C10': [1, 2, 3]}

WHAT = {
    10: 'C01: accepted although it is not a sentence',
    11: 'C01: accepted without having read the end of the input',
    20: 'C02: a sentence is rejected',
    21: 'C02: rejected after a prefix that sentences start with',
    30: 'C03: the actions run do not spell a derivation of the input (too few tokens)',
    31: 'C03: the actions run do not spell a derivation of the input (another token)',
    32: 'C03: a named symbol is bound to a wrong value',
    33: 'C03: the value returned is not the one of the root',
    34: 'C03: an action is missing',
    35: 'C03: an action of a wrong production ran, or the order is wrong',
    36: 'C03: the derivation is too deep',
    37: 'C03: a wrong number of names is bound',
    38: 'C03: tokens are left over',
    39: 'C03: more actions ran than the derivation has',
    40: 'C04: accepted although it is not a sentence',
    41: 'C04: the error does not stand at the first wrong token',
    42: 'C04: wrong text of the token found',
    43: 'C04: wrong list of expected tokens',
    44: 'C04: a lexer error is reported instead of the syntax error',
    45: 'C04: rejected at a token that can continue a sentence',
    50: 'C05: the input is read again after its end',
    51: 'C05: the input is read again after an error',
    52: 'C05: an error of the input is not reported',
    53: 'C05: another error than that of the input is reported',
    54: 'C05: an error is reported that the input did not have',
    55: 'C05: read further ahead than one token',
    56: 'C05: read on after the token it rejects',
    57: 'C08: a reduction is made on a token that cannot follow',
}


def prefixes(g, root, n):
    """number of viable prefixes of length <= n"""
    st = g.gram.dfa(root, n)
    cnt = {0: 1}
    tot = 0
    while cnt:
        tot += sum(cnt.values())
        nxt = {}
        for s, c in cnt.items():
            for j in st[s][1].values():
                nxt[j] = nxt.get(j, 0) + c
        cnt = nxt
        if tot > 10 ** 7:
            break
    return tot


def bound(g, root, budget, cap):
    best = 1
    for n in range(1, cap + 1):
        try:
            p = prefixes(g, root, n)
        except Exception:
            break
        if p > budget:
            break
        best = n
    return best


def tokens_of(g, inputs):
    out = []
    pay = {i - 1000: v for i, w, v in inputs if 1000 <= i < 2000}
    for i, w, v in inputs:
        if i < 1000:
            if v < len(g.terms):
                t = g.terms[v]
                if g.payload[v]:
                    t += '(%d)' % pay.get(i, 0)
                out.append(t)
            elif v == len(g.terms):
                out.append('<end>')
            else:
                out.append('<error %d>' % pay.get(i, 0))
    return ' '.join(out)


def short(s):
    return s if len(s) < 400 else s[:200] + ' ... ' + s[-190:]


def crate_name(prop):
    return 'h_' + prop.lower()


def build(prop, gs, n_of, refused, modtext=None, sizes=()):
    """Builds the crate, leaving out grammars that do not compile; they are put in `refused`."""
    name = crate_name(prop)
    d = os.path.join(BUILD, name)
    texts = {g.name: modtext(g) if modtext else fam_a.module(g, g.gram.pubs, 0 if g in REFUSE else max(n_of[g.name].values())) for g in gs}
    left = [g.name for g in gs]
    for _ in range(6):
        fam_a.write_crate(d, name, [('g_' + n, texts[n]) for n in left], (), sizes)
        ll, so, errs = cargo_crate(d, name)
        if errs is None:
            return ll, so, left
        bad = {}
        for pkg, files, msg in errs:
            if pkg != name:
                raise CheckError('%s does not compile: %s' % (pkg, msg))
            for f in files:
                if f.startswith('g_') and f[2:-3] in left:
                    bad.setdefault(f[2:-3], []).append(msg)
        if not bad:
            raise CheckError('the harness does not compile: %s' % errs[:3])
        for n, ms in bad.items():
            left.remove(n)
            ms.sort(key=lambda m: 0 if 'macro panicked' in m or 'custom attribute' in m else 1)
            refused[n] = ms
        if not left:
            raise CheckError('no grammar compiles: %s' % errs[:3])
    raise CheckError('the harness does not compile')


def select(prop, gs):
    out = []
    for g in gs:
        if prop in ('C02', 'C04', 'C10', 'C07', 'C08') and sum(g.conf()):
            continue
        if prop in ('C04', 'C07', 'C08') and not all(g.gram.all_productive(r) for r in g.gram.pubs):
            continue
        if prop == 'C09' and sum(g.conf()):
            continue
        if prop == 'C10' and 'multi' not in g.tags:
            continue
        out.append(g)
    return out


def outside(c, prop):
    """Judges an internal property by what generated parsers do (used when the harness on the inside does not compile)."""
    c.outside = True
    if prop == 'C09':
        refusals(c)
    main(prop, c)


def refusals(c):
    """the real macro on grammars with competing reductions (and some without)"""
    import grammars
    gs = grammars.REFUSE + [g for g in MORE if len(g.terms) < 30] + [g for g in CAT if not sum(g.conf())][::4]
    refused = {}
    n_of = {g.name: {r: 1 for r in g.gram.pubs} for g in gs}
    build(c.prop + 'r', gs, n_of, refused, modtext=lambda g: fam_a.module(g, [], 1))
    for g in gs:
        if g.conf()[1] and g.name not in refused:
            c.violations.append(('grammar %s has competing reductions but the macro accepts it' % g.name, {'grammar': fam_a.grammar_text(g)}))
        if not sum(g.conf()) and g.name in refused:
            c.violations.append(('grammar %s has no conflict but is refused: %s' % (g.name, refused[g.name][0]), {'grammar': fam_a.grammar_text(g)}))
    log('refusals by the macro:', len(refused), 'of', len(gs))


class Family:
    """Generated parsers of catalogue grammars, explored in the given modes."""

    def __init__(self, c, prop, gs, modes, budget, cap, timeout, crate=None, modtext=None, n_of=None, sizes=(), extra=()):
        self.prop = prop
        self.n_of = n_of or {g.name: {r: 6 if g in REFUSE else bound(g, r, budget, cap) for r in g.gram.pubs} for g in gs}
        self.refused = {}
        ll, so, self.left = build(crate or prop, gs, self.n_of, self.refused, modtext, sizes)
        log('built', len(self.left), 'grammars; refused:', sorted(self.refused))
        self.byname = {g.name: g for g in gs}
        self.info = {}
        entries = []
        for n in self.left:
            g = self.byname[n]
            for r in g.gram.pubs:
                e = fam_a.entry(g, r)
                self.info[e] = (g, r)
                for m in modes:
                    entries.append((e, [m, self.n_of[n][r]]))
        # big ones first
        entries.sort(key=lambda e: -len(self.info[e[0]][0].terms))
        c.explore(ll, so, entries, timeout=timeout, extra=extra)
        for n, ms in sorted(self.refused.items()):
            g = self.byname[n]
            conflictfree = not sum(g.conf())
            panicked = 'macro panicked' in ms[0]
            if conflictfree and (prop in ('C10', 'C09', 'C08') or (prop in ('C03', 'C12') and not panicked)):
                c.violations.append(('grammar %s has no conflict but there is no parser for it: %s' % (n, ms[0]), {'grammar': fam_a.grammar_text(g), 'compiler': ms[:5]}))
            else:
                c.notes.append('grammar %s left out, it is refused or does not compile: %s' % (n, ms[0]))

    def owns(self, r):
        return r['entry'] in self.info

    def describe(self, r, v):
        g, root = self.info[r['entry']]
        if v['key'] == 'assert#39' and r['args'][0] == 6:
            v = dict(v, key='', msg='no end: far more actions ran than any derivation has')
        what = WHAT.get(int(v['key'][7:])) if v['key'].startswith('assert#') else ('%s: %s' % (self.prop, v['msg']))
        return 'grammar %s, entry %s, input [%s]: %s' % (g.name, g.nts[root][0], short(tokens_of(g, v['inputs'])), what)

    def bounds(self):
        return {e: self.n_of[self.info[e][0].name][self.info[e][1]] for e in self.info}

    def samples(self, res):
        out = []
        for r in res:
            if self.owns(r) and r['samples'] and len(out) < 40:
                g, root = self.info[r['entry']]
                out.append({'grammar': g.name, 'entry': g.nts[root][0], 'mode': r['args'][0], 'bound': r['args'][1], 'paths': r['paths'],
                            'an input of one path': short(tokens_of(g, r['samples'][-1]['inputs']))})
        return out

    def assumptions(self):
        return [
            'grammars: the catalogue in /verif/lib/grammars.py (%d of its grammars here), expanded by the real macro' % len(self.left),
            'token sequences up to the bound given per entry; token kinds and payloads are symbolic',
            'rustc 1.99 and LLVM at opt-level 1 translate the source faithfully; the executor covers that IR (checked against native runs)',
        ]


LONG = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06')


def deep(c, prop):
    """Long and deeply nested inputs: only the ends of them are free."""
    import wide
    n = 70001
    gs = [wide.right(n), wide.nested(n), wide.gaps(n), wide.left(n)]
    n_of = {g.name: {0: g.tail + 2} for g in gs}
    m = max(x[0] for x in n_of.values()) + 10
    return Family(c, prop, gs, MODE[prop], 0, 0, 600 if TIER == 'quick' else 3000, crate=prop + 'd', n_of=n_of,
                  sizes=[('CONC', 1), ('MAXN', m), ('MAXLOG', 2 * m), ('MAXARGS', 3 * m), ('MAXST', 3 * n + 100)], extra=('--limit', '2000000000'))


HIST = {170: 'it reads further', 171: 'another outcome', 172: 'another value', 173: 'another lexer error', 174: 'another syntax error', 175: 'it reads another number of items', 176: 'other actions run', 177: 'actions get other values'}


def main16():
    c = Check('C16')
    quick = TIER == 'quick'
    gs = [g for g in CAT if 'same' not in g.tags]
    b1, b2 = (12, 6) if quick else (60, 25)
    refused = {}
    nm = {g.name: {r: (bound(g, r, b1, 6), bound(g, r, b2, 5)) for r in g.gram.pubs} for g in gs}
    ll, so, left = build('C16', gs, {}, refused, modtext=lambda g: fam_a.module(g, g.gram.pubs, 0, history=True))
    log('built', len(left), 'grammars; refused:', sorted(refused))
    for n, ms in sorted(refused.items()):
        c.notes.append('grammar %s left out, it is refused or does not compile: %s' % (n, ms[0]))
    byname = {g.name: g for g in gs}
    info, es = {}, []
    for n in left:
        g = byname[n]
        for r in g.gram.pubs:
            e = fam_a.entry(g, r)
            info[e] = (g, r)
            es.append((e, list(nm[n][r])))
    es.sort(key=lambda e: -len(info[e[0]][0].terms))
    c.explore(ll, so, es, timeout=400 if quick else 3000)

    def describe(r, v):
        g, root = info[r['entry']]
        one = tokens_of(g, [x for x in v['inputs'] if x[0] < 10000])
        two = tokens_of(g, [(i - 10000, w, x) for i, w, x in v['inputs'] if 10000 <= i < 20000])
        iv = {i: x for i, w, x in v['inputs']}
        at = iv.get(30001, 0)
        other = g.nts[g.gram.pubs[iv.get(30000, 0)]][0]
        k = int(v['key'][7:]) if v['key'].startswith('assert#') else 0
        what = ('the other parse: ' + HIST.get(k - 10, v['msg']) if k > 180 else HIST.get(k, v['msg']))
        items = len([x for x in v['inputs'] if x[0] < 1000])
        where = 'after' if not at else 'when asking for item %d' % at if at <= items else 'in action %d' % (at - items)
        return 'grammar %s: C16: entry %s on [%s], %s entry %s on [%s]: %s' % (g.name, g.nts[root][0], one, where, other, two, what)
    c.digest(describe, validate=8)
    covers = covers_of(c)
    for k in (74, 75, 76, 77, 78, 79):
        c.require(covers.get(k, 0) > 0, 'no path with marker %d' % k)
    c.assumptions = ['grammars: %d of the catalogue in /verif/lib/grammars.py, expanded by the real macro' % len(left), 'one thread; the other parse runs before, or to its end within one call of the input iterator or of a semantic action']
    c.finish({'bounds': {e: {'tokens': x[0], 'tokens of the other parse': x[1]} for e, x in es}, 'queries_discharged': sum(r['queries'] for r in c.res)},
             [{'entry': r['entry'], 'args': r['args'], 'paths': r['paths'], 'inputs of a path': r['samples'][-1]['inputs']} for r in c.res if r['samples']][::8])


def covers_of(c):
    covers = {}
    for r in c.res:
        for k, v in r['covers'].items():
            covers[int(k)] = covers.get(int(k), 0) + v
    return covers


def main(prop, c=None):
    c = c or Check(prop)
    gs = select(prop, CAT + MORE)
    if prop == 'C06':
        gs = gs + [g for g in REFUSE]
    budget, cap = (1500, 12) if TIER == 'quick' else (30000, 18)
    f = Family(c, prop, gs, MODE[prop], budget, cap, 600 if TIER == 'quick' else 3000)
    d = deep(c, prop) if prop in LONG else None
    c.digest(lambda r, v: (f if f.owns(r) else d).describe(r, v))
    covers = covers_of(c)
    for k in {'C01': [1, 2], 'C02': [1, 2], 'C03': [4, 5], 'C04': [6, 7], 'C05': [1, 8], 'C06': [1, 2, 3], 'C10': [1, 2, 5]}.get(prop, []):
        c.require(covers.get(k, 0) > 0, 'no path with marker %d' % k)
    c.assumptions = f.assumptions()
    c.finish({
        'bounds': dict(f.bounds(), **(d.bounds() if d else {})),
        'grammars': len(f.left),
        'queries_discharged': sum(r['queries'] for r in c.res),
    }, f.samples(c.res))
