"""Catalogue of grammars for the checks on generated parsers.

DSL: one non-terminal per line, `pub X: TYPE = alt | alt`, symbols separated by blanks; terminals are quoted.
Prefix `_` leaves a symbol unnamed, prefix `~` binds it as `mut`. An empty alternative is written `%`.
Terminals: text, or text! for one that carries a u8 payload.
TYPE selects the Rust type of the results: N (newtype), B (Box), P (pair), S (String), U (u16).
"""
import re
from oracle import Gram


class Prod:
    def __init__(self, syms):
        self.syms = syms        # (kind 't'/'n', name, bound, mut)


class Grammar:
    def __init__(self, name, terms, text, tags=(), n=None, entries=None, note='', guided=(1 << 30, 1 << 30), turn=1 << 30, auto=None, texts=None):
        self.name = name
        self.note = note
        self.tags = set(tags)
        # tokens head..tail-1 are not free (see rt/hl.rs)
        self.head, self.tail = guided
        self.turn = turn
        # the automaton, by hand: number of tokens -> (states, start)
        self.auto = auto
        self.n = n              # override of the token bound (quick, thorough)
        self.terms = []
        self.payload = []
        for t in terms.split():
            self.terms.append(t.rstrip('!') if t != '!' else t)
            self.payload.append(t.endswith('!') and t != '!')
        self.nts = []           # (name, pub, type, [Prod])
        for line in text.strip().split('\n'):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            m = re.match(r'(pub )?((?:r#)?\w+)\s*:\s*(\w+)\s*=(.*)$', line)
            assert m, line
            pub, nm, ty, rhs = m.groups()
            prods = []
            for alt in [] if rhs.strip() == '!' else re.split(r'\s\|(?:\s|$)', ' ' + rhs + ' '):
                syms = []
                for w in alt.split():
                    if w == '%':
                        continue
                    bound, mut = True, False
                    if w[0] == '_' and len(w) > 1:
                        bound = False
                        w = w[1:]
                    elif w[0] == '~':
                        mut = True
                        w = w[1:]
                    if w[0] in '"\'':
                        syms.append(('t', w[1:-1], bound, mut))
                    else:
                        syms.append(('n', w, bound, mut))
                prods.append(Prod(syms))
            self.nts.append((nm, bool(pub), ty, prods))
        if texts:
            # the terminals above are only placeholders
            at = dict(zip(self.terms, texts))
            self.terms = list(texts)
            for x in self.nts:
                for p in x[3]:
                    p.syms = [('t', at[y[1]]) + y[2:] if y[0] == 't' else y for y in p.syms]
        ti = {t: i for i, t in enumerate(self.terms)}
        ni = {x[0]: i for i, x in enumerate(self.nts)}
        prods = [[tuple(ti[s[1]] if s[0] == 't' else ~ni[s[1]] for s in p.syms) for p in nt[3]] for nt in self.nts]
        self.gram = Gram(self.terms, [x[0] for x in self.nts], prods, [i for i, x in enumerate(self.nts) if x[1]])
        # global production numbers
        self.pbase = []
        k = 0
        for x in self.nts:
            self.pbase.append(k)
            k += len(x[3])
        self.nprods = k
        self._conf = None

    def conf(self):
        if self._conf is None:
            self._conf = self.gram.conflicts()
        return self._conf


CAT = []
# for generated parsers only (too large for the symbolic grammars)
MORE = []


def g(name, terms, text, tags=(), **k):
    CAT.append(Grammar(name, terms, text, tags, **k))



def more(*a, **k):
    MORE.append(Grammar(*a, **k))


MORE.append(Grammar('many', ' '.join('t%02d' % (i * 3 % 70) for i in range(70)), 'pub S: N = A | A S\nA: N = ' + ' | '.join('"t%02d"' % i for i in range(69))))

# texts that a string literal, a format string or a list of texts could garble, and texts that differ in case or blanks only
TEXTS = ['{}', '{0}', '"', '\\', '\\n', '\n', '\t', 'a, b', ', ', ' ', 'a', 'A', 'a ', ' a', 'end-of-input', '\u00e9', 'e\u0301', '\U0001f600', "'", '%s', '#', '//', 'x' * 300, '']
_k = ' '.join('k%02d' % i for i in range(len(TEXTS)))
more('texts', _k, 'pub S: N = L | L S\n' + '\n'.join('%s: N = %s' % (x, ' | '.join('"k%02d"%s' % (i, y) for i in r)) for x, r, y in [('L', range(0, 24, 2), ' M'), ('M', range(1, 24, 2), ''), ]), texts=TEXTS, tags=['names'])
# names that differ in case, in underscores or late only, and keywords
more('case', 'a b c', """
pub A: N = _"a" a | _"b" A
a: N = _"c" | _"b" _a | _"c" A_
A_: N = _"a" | _"b" A__
pub A__: N = _"b" | _"c" VeryLongNameOfANonTerminal1
VeryLongNameOfANonTerminal1: N = _"a" VeryLongNameOfANonTerminal2 | _"b"
VeryLongNameOfANonTerminal2: N = _"b" VeryLongNameOfANonTerminal1 | _"c" \u00c9
\u00c9: N = _"a" | _"b" \u00e9
\u00e9: N = _"b" | _"c" A
""", tags=['names'])
more('keywords', 'a b', """
pub r#type: N = _"a" r#match | _"b"
r#match: N = _"b" r#type | _"a" Self_
Self_: N = _"a"
""", tags=['names'])
# names of symbols that the generated code uses for itself
more('bind_own', 'a! b! c', '''
pub S: N = "a" | "b" S _"c" | ~T "a" "b" | _"c" _"c" ~T "b" "a" ~T "a" "b" T "a" "b" "a" "b" "a" S
T: U = "c" "a" "b" "c" | _"c" "b"
''', tags=['bind', 'binders'])
g('types', 'a b! c', '''
pub S: Vn = _"a" P | S Q
P: Vb = _"b" R | _"c"
pub Q: On = "b" T | "c"
R: Oo = _"a" | "b" U
T: A1 = _"a" | _"c" V
U: A2 = _"a" W | _"c"
pub V: Ma = "b" X | "c"
pub W: Mb = _"c" | "b" Y
X: Tu = _"a" | "b" Y
Y: Tn = _"a" | "b" Z
Z: Bd = _"a" | "b" ZZ
ZZ: Be = _"a" | "b"
''', tags=['multi'])
# ---------------------------------------------------------------- classics
g('expr', '( ) + * int!', '''
pub E: N = E _"+" T | T
T: N = T _"*" F | F
F: N = _"(" E _")" | "int"
''')
g('expr_right', '( ) + - int!', '''
pub E: B = T _"+" E | T _"-" E | T
T: B = _"(" E _")" | "int"
''')
g('xnode', 'a b c!', '''
pub S: N = C C
C: N = "c" C | _"b" | _"a"
''')
g('canon', 'a b c d e', '''
# LR(1) but not LALR(1)
pub S: N = _"a" A _"d" | _"b" B _"d" | _"a" B _"e" | _"b" A _"e"
A: N = _"c"
B: N = _"c"
''')
g('canon2', 'a b c d', '''
pub S: N = _"a" A _"a" | _"b" A _"b" | _"a" B _"b" | _"b" B _"a"
A: N = _"c" | _"c" _"d"
B: N = _"c"
''')
g('parens', '( )', '''
pub L: N = % | _"(" L _")" L
''')
g('anbn', 'a b', '''
pub S: N = _"a" S _"b" | %
''')
g('palin', 'a b c', '''
pub S: N = _"a" S _"a" | _"b" S _"b" | _"c"
''')
g('listr', 'x! ,', '''
pub L: B = "x" _"," L | "x"
''')
g('listl', 'x! ,', '''
pub L: S = ~L _"," "x" | "x"
''')
g('opt_list', '[ ] x! ,', '''
pub L: N = _"[" M _"]"
M: N = % | X
X: N = "x" | X _"," "x"
''')
g('json', '{ } [ ] : , s! n!', '''
pub V: B = O | A | "s" | "n"
O: N = _"{" Ms _"}" | _"{" _"}"
Ms: N = M | Ms _"," M
M: P = "s" _":" V
A: N = _"[" _"]" | _"[" Es _"]"
Es: N = V | Es _"," V
''', n=(5, 7))
# ---------------------------------------------------------------- empty-deriving non-terminals
g('null_first', 'a b y', '''
# the non-terminal before the terminal is optional but has alternatives (lookahead must include both)
pub X: N = Y S
Y: N = _"y"
S: N = A _"b"
A: N = _"a" | %
''')
g('null_first2', 'a b y', '''
pub X: N = S
A: N = _"a" | %
S: N = Y A _"b"
Y: N = _"y" | %
''')
g('null_chain', 'a b c d', '''
pub S: N = A B C _"d"
A: N = _"a" | %
B: N = _"b" | A2
A2: N = %
C: N = D
D: N = _"c" | %
''')
g('null_chain_rev', 'a b c x', '''
# declared so that emptiness is discovered late
pub S: N = P Q _"x" | P Q
P: N = Q1 Q2
Q1: N = Q2 Q3
Q2: N = Q3
Q3: N = Q4
Q4: N = %
Q: N = _"a" R
R: N = _"b" | Q5
Q5: N = Q6
Q6: N = _"c" | %
''')
g('null_tail', 'a b c', '''
pub S: N = _"a" T
T: N = U V
U: N = _"b" | %
V: N = _"c" | %
''')
g('null_look', 'a b c d', '''
# lookaheads of the reduction of I run through two optional non-terminals to the end
pub S: N = I J K | I _"d"
I: N = _"a"
J: N = _"b" | %
K: N = _"c" | %
''')
g('null_look2', 'w a b c z', '''
pub S: N = W M _"z"
W: N = _"w"
M: N = A B C
A: N = _"a" | %
B: N = _"b" | %
C: N = _"c" | %
''')
g('empty_start', 'a', '''
pub S: N = %
''')
g('empty_or', 'a b', '''
pub S: N = T
T: N = U
U: N = % | _"a" U _"b"
''')
g('opt_mid', 'let mut id! = n!', '''
pub S: N = _"let" M "id" I
M: U = _"mut" | %
I: U = _"=" "n" | %
''')
g('late_empty', 'a b c', '''
# emptiness of S depends on a chain declared before its end is known
pub S: N = A _"a" | B _"b"
A: N = C D
B: N = D E
C: N = D
D: N = E2
E: N = _"c"
E2: N = %
''')
g('null_down', 'r x', '''
# emptiness travels up one declaration per round, nothing else changes meanwhile
pub T: N = R S
R: N = _"r"
S: N = A _"x"
A: N = B
B: N = C
C: N = D
D: N = %
''')
g('null_down2', 'r x y', '''
pub T: N = R A Z | R _"y"
R: N = _"r"
A: N = B
B: N = C C
C: N = D
D: N = E E E
E: N = %
Z: N = _"x" | %
''')
g('null_up', 'r x', '''
D: N = %
C: N = D
B: N = C D
A: N = B C
S: N = A _"x"
R: N = _"r"
pub T: N = R S
''')
# ---------------------------------------------------------------- chains, unused parts
g('units', 'a b', '''
pub S: N = A
A: B = B
B: P = C
C: S = D
D: N = _"a" | _"b" S
''')
g('unreach', 'a b q', '''
pub S: N = _"a" S | _"b"
Unused: N = _"q" Unused2 | _"q"
Unused2: N = Unused _"a" | %
''')
g('unprod', 'a b q', '''
pub S: N = _"a" S | _"b" | Loop
Loop: N = _"q" Loop
''', tags=['unproductive'])
g('unprod_only', 'a q', '''
pub S: N = _"a" S
''', tags=['unproductive'])
# ---------------------------------------------------------------- bindings and values
g('bind_mix', 'a! b! c', '''
pub S: N = "a" _"b" X ~Y _"c" | _"c" _X "b" _"a" Y
X: P = "a" | "b" X
Y: B = _"c" | "a" ~Y
''', tags=['bind'])
g('bind_mut', 'a! b!', '''
pub S: S = ~"a" ~S | ~"b"
''', tags=['bind'])
g('bind_none', 'a b!', '''
pub S: U = _"a" _S _"b" | _"b"
''', tags=['bind'])
g('samety', 'a! b! c d', '''
pub S: N = A B _"c" | B A _"d"
A: N = "a" | _"c" A
B: N = "b" | _"d" B
''', tags=['bind'])
g('mixty', 'a! b! c', '''
pub S: S = A B C
A: B = "a" | "a" A
B: P = "b"
C: U = _"c" | %
''', tags=['bind'])
g('wide', 'a! b! c! d! e!', '''
pub S: N = "a" "b" "c" "d" "e" | "e" _"d" "c" _"b" "a" | "b" S "b"
''', tags=['bind'], n=(6, 8))
g('same1', 'b c n!', """
# productions with the same action text and binders, told apart by position only
pub S: N = _"b" "n" _"n" | _"c" _"n" "n" | _"c" "n" | _"b" _"c" _"n" "n"
""", tags=['bind', 'same'])
g('same2', 'a! b! c', """
pub S: N = A B | _"c" B A | _A _"c" B | A _B _"c" _"c"
A: N = "a" | _"a" "a"
B: N = "b" | "b" _"b" | _"b" _"b" "b"
""", tags=['bind', 'same'])
g('same3', 'x! y! ; ,', """
pub L: N = L _";" _I | _L _"," I | I
pub M: N = L _"y" I | _L _"x" I | _L _"x" _"x" I
I: N = ~"x" "y" | "y" ~"x" | _"x" _"x" "y" _"y" "x"
""", tags=['bind', 'same'])
g('same4', 'a! b! c', """
pub S: U = _"b" | "a" S _"c" _S | "a" _S _"b" S
T: N = S
""", tags=['bind', 'same'])
# ---------------------------------------------------------------- names
g('names', 'a b c!', '''
E11: N = _"a" | _"b" E
pub E: N = E1 _"c" | _"a" _"b"
E1: B = "c" | E11 _"c" E1
''', tags=['names'])
g('names2', 'x y x1 token!', '''
pub A1: N = _"x" A | _"x1"
A: N = _"y" A1 | "token" _A11
pub A11: P = _"x1" | _"x" A11 _"y"
''', tags=['names', 'multi'])
# ---------------------------------------------------------------- several entry points
g('multi2', 'a b c', '''
pub S: N = _"a" T | _"b"
pub T: B = _"c" S | _"b"
''', tags=['multi'])
g('multi_twins', 'a b', '''
pub A: N = "a" "b" | _"b"
pub B: N = "a" "b" | _"b"
pub C: N = "a" "b" | _"b"
D: N = "a" "b" | _"b"
pub E: N = D | D D
pub F: N = D | D D
''', tags=['multi'])
g('multi_twins2', 'a! b!', '''
pub A: N = "a" _"b"
pub B: N = _"a" "b"
pub C: N = "a" "b"
''', tags=['multi'])
g('multi_same', 'a b', '''
pub S: N = _"a" | _"b" S
pub T: N = _"a" | _"b" T
U: N = S
''', tags=['multi'])
g('multi_rev', 'a b c d', '''
Z: N = _"c" | Y _"c"
pub Y: P = _"b" | _"a" X
pub X: S = _"d" | Z
pub W: N = X Y | %
''', tags=['multi'])
g('multi_expr', '( ) + int!', '''
T: N = _"(" E _")" | "int"
pub E: N = E _"+" T | T
pub F: B = T | F T
pub L: N = % | L E2
E2: N = "int" _"+"
''', tags=['multi'])
g('multi_null', 'a b', '''
pub A: N = % | _"a"
pub B: N = A _"b"
pub C: N = B A
''', tags=['multi'])
g('multi_rec', 'a b ;', '''
pub Prog: N = % | Prog Stmt
pub Stmt: B = _"a" _";" | _"b" Stmt
pub Block: N = Stmt Prog _"b" _"b" _"b"
''', tags=['multi'])
# ---------------------------------------------------------------- shift/reduce choices
g('dangling', 'if then else x', '''
pub S: N = _"if" _"x" _"then" S | _"if" _"x" _"then" S _"else" S | _"x"
''', tags=['sr'])
g('ambig_plus', '+ n!', '''
pub E: N = E _"+" E | "n"
''', tags=['sr'])

g('hidden1', 'b c', """
# left recursion behind an empty prefix
pub X: N = _"b" | O X _"c"
O: N = %
""", tags=['sr'])
g('hidden2', 'b c', """
O: N = %
pub X: N = _"b" | O X _"c"
""", tags=['sr'])
g('hidden3', 'b c', """
pub S: N = X
P: N = O O
X: N = P X _"c" | _"b" X | _"b"
O: N = % | _"c"
""", tags=['sr'])
g('hidden4', 'a b', """
pub S: N = X _"b"
X: N = _"a" | O X
O: N = % | _"b"
""", tags=['sr'])
g('sr_empty', 'a b', """
pub S: N = _"a" E _"b"
E: N = % | _"b" _"b" | E2 _"b"
E2: N = %
""", tags=['sr'])
g('sr_empty2', 'a b', """
E2: N = %
E: N = E2 _"b" | _"b" _"b" | %
pub S: N = _"a" E _"b"
""", tags=['sr'])
g('sr_list', 'x ,', """
pub L: N = L _"," L | L L | _"x"
""", tags=['sr'])

# ---------------------------------------------------------------- grammars with competing reductions: to be refused
REFUSE = []


def bad(name, terms, text):
    x = Grammar(name, terms, text)
    assert x.conf()[1], name
    REFUSE.append(x)


bad('rr_simple', 'a b', '''
pub S: N = A | B
A: N = _"a"
B: N = _"a"
''')
bad('rr_empty', 'x y', '''
pub S: N = A _"x" | B _"x" | B _"y"
A: N = %
B: N = %
''')
bad('rr_self', 'a b', '''
pub S: N = S | _"a" _"b"
''')
bad('rr_cycle', 'a', '''
pub S: N = T | _"a"
T: N = S
''')
bad('rr_twice', 'a b', '''
pub S: N = _"a" | _"b" | _"a"
''')
bad('rr_ctx', 'a b c x', '''
pub S: N = _"a" A _"c" | _"b" A _"b" | _"b" B _"b" | _"a" B _"b"
A: N = _"x"
B: N = _"x"
''')
bad('rr_second', 'a b', '''
pub S: N = _"a"
pub T: N = A | B
A: N = _"b"
B: N = _"b"
''')
bad('rr_shift_too', 'a b', '''
pub S: N = A _"b" | B _"b" | _"a" _"b" _"b"
A: N = _"a"
B: N = _"a"
''')
bad('rr_accept', 'a', '''
pub S: N = S E | _"a"
E: N = % | _"a"
''')
bad('rr_deep', 'a b c', '''
pub S: N = _"c" S | L
L: N = _"a" L | M _"b" | O _"b"
M: N = _"b"
O: N = P
P: N = _"b"
''')
