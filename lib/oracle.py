"""Independent reference models for context-free grammars (nothing here looks at /repo).

A grammar is `Gram`: terminals (list of texts), non-terminals with productions as tuples of symbols.
A symbol is an int: t >= 0 is terminal t, ~n (negative) is non-terminal n.
"""
from collections import deque

INF = 10 ** 9


class Gram:
    def __init__(self, terms, nts, prods, pubs):
        self.terms = terms          # texts
        self.nts = nts              # names
        self.prods = prods          # list over nts of lists of tuples of symbols
        self.pubs = pubs            # indices of public non-terminals, in declaration order
        self.analyse()

    def analyse(self):
        n = len(self.nts)
        self.minlen = [INF] * n
        ch = True
        while ch:
            ch = False
            for a in range(n):
                for p in self.prods[a]:
                    l = min(INF, sum(self.ml(s) for s in p))
                    if l < self.minlen[a]:
                        self.minlen[a] = l
                        ch = True
        self.nullable = [m == 0 for m in self.minlen]
        self.productive = [m < INF for m in self.minlen]
        # "LR nullable": the usual fixpoint (same thing)
        self.first = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for a in range(n):
                for p in self.prods[a]:
                    for s in p:
                        if s >= 0:
                            new = {s}
                        else:
                            new = self.first[~s]
                        if not new <= self.first[a]:
                            self.first[a] |= new
                            ch = True
                        if s >= 0 or not self.nullable[~s]:
                            break

    def ml(self, s):
        return 1 if s >= 0 else self.minlen[~s]

    def all_productive(self, root):
        seen = {root}
        todo = [root]
        while todo:
            a = todo.pop()
            if not self.productive[a]:
                return False
            for p in self.prods[a]:
                for s in p:
                    if s < 0 and ~s not in seen:
                        seen.add(~s)
                        todo.append(~s)
        return True

    # ---- canonical LR(1)
    def first_of(self, syms, la):
        out = set()
        for s in syms:
            if s >= 0:
                out.add(s)
                return out
            out |= self.first[~s]
            if not self.nullable[~s]:
                return out
        out.add(la)
        return out

    def closure(self, items):
        items = set(items)
        todo = list(items)
        while todo:
            (a, pi, dot, la) = todo.pop()
            rhs = self.rhs(a, pi)
            if dot < len(rhs) and rhs[dot] < 0:
                b = ~rhs[dot]
                for x in self.first_of(rhs[dot + 1:], la):
                    for qi in range(len(self.prods[b])):
                        it = (b, qi, 0, x)
                        if it not in items:
                            items.add(it)
                            todo.append(it)
        return frozenset(items)

    def rhs(self, a, pi):
        if a < 0:               # augmented start -1-root
            return (~(-1 - a),)
        return self.prods[a][pi]

    def lr1(self, root, limit=100000):
        """(states, trans, conflicts) of the canonical automaton for one entry point"""
        EOF = -1
        start = self.closure([(-1 - root, 0, 0, EOF)])
        ids = {start: 0}
        order = [start]
        trans = []
        i = 0
        while i < len(order):
            st = order[i]
            nxt = {}
            for (a, pi, dot, la) in st:
                rhs = self.rhs(a, pi)
                if dot < len(rhs):
                    nxt.setdefault(rhs[dot], []).append((a, pi, dot + 1, la))
            tr = {}
            for s, k in nxt.items():
                c = self.closure(k)
                if c not in ids:
                    ids[c] = len(order)
                    order.append(c)
                    if len(order) > limit:
                        raise Exception("too many states")
                tr[s] = ids[c]
            trans.append(tr)
            i += 1
        sr = rr = 0
        for st, tr in zip(order, trans):
            red = {}
            for (a, pi, dot, la) in st:
                if dot == len(self.rhs(a, pi)):
                    red.setdefault(la, set()).add((a, pi))
            for la, s in red.items():
                if len(s) > 1:
                    rr += 1
                if la >= 0 and la in tr:
                    sr += 1
        return order, trans, (sr, rr)

    def conflicts(self):
        """(shift/reduce, reduce/reduce) over all entry points"""
        sr = rr = 0
        for r in self.pubs:
            _, _, (a, b) = self.lr1(r)
            sr += a
            rr += b
        return sr, rr

    # ---- viable prefixes up to a length, by leftmost derivation stacks
    def dfa(self, root, n, max_states=60000):
        """Acyclic automaton of viable prefixes of sentences of `root`.

        Returns list of states (accept, {terminal: next}); state 0 is the start. A state has transitions only
        if tokens remain within the bound n; `expected` (set of terminals) is listed for every state.
        """
        MORE = None
        minlen = self.minlen

        def trunc(stack, r):
            tot = 0
            for i, s in enumerate(stack):
                if s is MORE:
                    return stack[:i + 1]
                tot += self.ml(s)
                if tot > r:
                    if i + 1 < len(stack):
                        return stack[:i + 1] + (MORE,)
                    return stack
            return stack

        def close(stacks, r):
            seen = set(stacks)
            todo = list(stacks)
            out = set()
            while todo:
                st = todo.pop()
                if not st or st[0] is MORE or st[0] >= 0:
                    out.add(st)
                    continue
                rest = st[1:]
                for p in self.prods[~st[0]]:
                    if any(self.ml(s) >= INF for s in p):
                        continue
                    ns = trunc(p + rest, r)
                    if ns not in seen:
                        seen.add(ns)
                        todo.append(ns)
            return frozenset(out)

        if not self.productive[root]:
            return [(False, {}, set())]
        ids = {}
        states = []
        key0 = (close([trunc((~root,), n)], n), n)
        ids[key0] = 0
        q = deque([key0])
        states.append(None)
        while q:
            key = q.popleft()
            st, r = key
            i = ids[key]
            acc = () in st
            exp = {s[0] for s in st if s}
            assert MORE not in exp
            tr = {}
            if r > 0:
                for t in exp:
                    nk = (close([trunc(s[1:], r - 1) for s in st if s and s[0] == t], r - 1), r - 1)
                    if nk not in ids:
                        ids[nk] = len(states)
                        states.append(None)
                        q.append(nk)
                        if len(states) > max_states:
                            raise Exception("oracle too large")
                    tr[t] = ids[nk]
            states[i] = (acc, tr, exp)
        return states


def minimise(states):
    """Merge states of an acyclic automaton with the same future."""
    order = []
    n = len(states)
    depth = {}
    import sys
    sys.setrecursionlimit(10000)
    canon = {}
    rep = [None] * n
    out = []

    def go(i):
        if rep[i] is not None:
            return rep[i]
        acc, tr, exp = states[i]
        t2 = {t: go(j) for t, j in tr.items()}
        k = (acc, tuple(sorted(t2.items())), tuple(sorted(exp)))
        if k not in canon:
            canon[k] = len(out)
            out.append((acc, t2, exp))
        rep[i] = canon[k]
        return rep[i]

    root = go(0)
    return out, root
