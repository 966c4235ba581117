"""Large grammars (C13)."""
from grammars import Grammar


def two(i, base):
    return '"t%d" "t%d"' % (i // base, i % base)


def terms(n):
    return Grammar('terms', ' '.join('t%d%s' % (i, '!' if i % 3 == 1 else '') for i in range(n)),
                   'pub S : N = % | S I\nI : U = ' + ' | '.join('"t%d"' % i for i in range(n)))


def long(n):
    syms = []
    for i in range(n):
        syms.append('A' if i % 7 == 3 else '_B' if i % 7 == 5 else '_"t0"' if i % 2 else '~"t1"' if i % 5 == 0 else '"t1"')
    return Grammar('long', 't0 t1! t2 t3', 'pub S : N = %s | %s "t2" "t3"\nA : U = "t1" | "t2" "t0"\nB : S = %% | "t3"' % (' '.join(syms), ' '.join(syms[:n - 3])), guided=(14, 245))


def nts(n, base=20):
    o = ['N%d : %s = %s' % (i, 'NUP'[i % 3], two(i, base)) for i in range(n)]
    return Grammar('nts', ' '.join('t%d' % i for i in range(base)), '\n'.join(o[:n // 2]) + '\npub S : N = % | S I\nI : U = ' + ' | '.join('N%d' % i for i in range(n)) + '\n' + '\n'.join(o[n // 2:]))


def pubs(n, base=18):
    return Grammar('pubs', ' '.join('t%d' % i for i in range(base)), '\n'.join('pub N%d : %s = %s%s' % (i, 'NUP'[i % 3], two(i, base), ' | "t%d" N%d' % (base - 1, i - 1) if i % 50 == 49 else '') for i in range(n)))


def states(n, m, base=15):
    return Grammar('states', ' '.join('t%d' % i for i in range(base)), 'pub S : U = ' + ' | '.join('%s %s' % (two(i, base), '_"t0" ' * m) for i in range(n)), guided=(2, m + 1))


def prods(n):
    return Grammar('prods', 't0 t1 t2', 'U : U = ' + ' | '.join('%' for i in range(n)) + '\npub S : N = "t1" | A "t2"\nA : U = "t0" | "t0" A')


def empties(n):
    return Grammar('empties', 't0 t1 t2', '\n'.join('U%d : U = !' % i for i in range(n)) + '\npub S : N = "t1" | A "t2"\nA : U = "t0" | "t0" A')


# ---------------------------------------------------------------- long inputs, with their automata

def right(n):
    """a phrase inside a phrase at its end"""
    e = {0, 1}
    return Grammar('right', 'a! b c', 'pub S : N = "b" | "a" S', guided=(2, n - 2), auto=lambda m: ([(False, {0: 0, 1: 1}, {0, 1}), (True, {}, set())], 0))


def left(n):
    return Grammar('left', 'a! b c', 'pub S : N = % | S "a" | S _"b" _"a"', guided=(2, n - 2), auto=lambda m: ([(True, {0: 0, 1: 1}, {0, 1}), (False, {0: 0}, {0})], 0))


def gaps(n):
    """with empty phrases in between"""
    return Grammar('gaps', 'a b c!', 'pub S : N = "b" | _"a" E _"a" S\nE : P = % | _"c"', guided=(2, n - 2),
                   auto=lambda m: ([(False, {0: 1, 1: 2}, {0, 1}), (False, {2: 3, 0: 0}, {0, 2}), (True, {}, set()), (False, {0: 0}, {0})], 0))


def nested(n):
    """brackets"""
    def auto(m):
        st = []
        # 2d: d open, 2d+1: d to close
        for d in range(m + 2):
            st.append((False, {0: 2 * d + 2, 2: 2 * d + 1}, {0, 2}))
            st.append((d == 0, {1: 2 * d - 1} if d else {}, {1} if d else set()))
        st.append((False, {}, set()))
        st.append((False, {}, set()))
        return st, 0
    # n is odd
    return Grammar('nested', '( ) x!', 'pub S : N = _"(" S _")" | "x"', guided=(2, n - 2), turn=(n - 1) // 2, auto=auto)
