"""Datatype constructors (C09, C10).

Type_struct: element (I, J, K) - block I, copy J of its old type, element K of that type's map - of the new type map.  The index of
an element is cum(I) + J*count_I + K, cum(I) being the number of elements of the blocks before I.  I, J, K are arbitrary constants.
"""
from .base import *
from .lib import *
from .consts import K, allk
from .groups import out, ok
from .types import *
from .comm import slotframe

cumF = z3.Function('cum', I, I)       # elements in the blocks before i
olbF = z3.Function('olb', I, I)       # a lower bound marker occurs in the blocks before i
oubF = z3.Function('oub', I, I)
B58 = 2 ** 58


class Blocks:
    """the arguments of Type_struct in the entry state"""

    def __init__(s, c):
        s.c, s.n = c, c.a[0]

    def b(s, i):
        return s.c.s0.ld(32, s.c.a[1], 4 * i)

    def d(s, i):
        return s.c.s0.ld(64, s.c.a[2], 8 * i)

    def T(s, i):
        return s.c.s0.ld('p', s.c.a[3], 8 * i)

    def cnt(s, i):
        return cnt(s.c, s.c.s0, s.T(i))

    def ext(s, i):
        return text(s.T(i).obj)

    def kind0(s, i):
        return kind(s.c, s.c.s0, s.T(i), IV(0))

    def low(s, i):
        return And(s.cnt(i) > 0, s.kind0(i) == K('SIMPLE_LOWER'))

    def upp(s, i):
        return And(s.cnt(i) > 0, s.kind0(i) == K('SIMPLE_UPPER'))

    def plain(s, i):
        return Not(Or(s.low(i), s.upp(i)))

    def o(s, i, f):
        return s.c.s0.ld(32, s.T(i), getattr(lay(s.c), f))

    def bd(s, i, f):
        return s.c.s0.ld(64, s.T(i), getattr(lay(s.c), f))

    def inr(s, i):
        return And(i >= 0, i < s.n)

    def lbc(s, i, j):        # where copy j of block i puts its lower bound marker
        return s.bd(i, 'lb') + s.d(i) + mulF(j, s.ext(i))

    def ubc(s, i, j):
        return s.bd(i, 'ub') + s.d(i) + mulF(j, s.ext(i))

    def eld(s, i, j, k):     # displacement of element (i, j, k)
        return disp(s.c, s.c.s0, s.T(i), k) + s.d(i) + mulF(j, s.ext(i))

    def elk(s, i, k):
        return kind(s.c, s.c.s0, s.T(i), k)

    def idx(s, i, j, k):
        return cumF(i) + mulF(j, s.cnt(i)) + k


class Uniform(Blocks):
    """blocks of one old type: b(i), d(i) are functions"""

    def __init__(s, c, n, T, b, d):
        s.c, s.n, s.Tp, s.bf, s.df = c, n, T, b, d

    def b(s, i):
        return s.bf(s.c, i)

    def d(s, i):
        return s.df(s.c, i)

    def T(s, i):
        return s.Tp


class ByHandle(Blocks):
    """the arguments of MPI_Type_struct: an array of handles"""

    def T(s, i):
        return dtptr(s.c, s.c.s0, s.c.s0.ld(32, s.c.a[3], 4 * i))


VIEWS = {}


def blk(c):
    if 'blk' not in c.local:
        c.local['blk'] = VIEWS.get(c.eng.rootname.split(':')[-1], Blocks)(c)
        for n in ('XL', 'XU', 'DL', 'DU', 'bI', 'bJ', 'bK'):
            c.local[n] = z3.Const(n, I)
    return c.local['blk']


def defs(c, i):
    """definitions at block i, and the consequences of their monotonicity"""
    B = blk(c)
    g = B.inr(i)
    c1 = If(B.plain(i), mulF(B.b(i), B.cnt(i)), IV(0))
    act = B.b(i) != 0
    r = [cumF(0) == 0, olbF(0) == 0, oubF(0) == 0,
         imp(g, cumF(i + 1) == cumF(i) + c1),
         imp(g, olbF(i + 1) == If(And(act, Or(B.low(i), And(B.plain(i), B.o(i, 'o_lb') != 0))), IV(1), olbF(i))),
         imp(g, oubF(i + 1) == If(And(act, Or(B.upp(i), And(B.plain(i), B.o(i, 'o_ub') != 0))), IV(1), oubF(i))),
         # cum is monotone (each block adds a non-negative number of elements)
         imp(g, And(cumF(i) >= 0, cumF(i) <= cumF(i + 1), cumF(i + 1) <= cumF(B.n))),
         imp(g, And(B.b(i) >= 0, B.cnt(i) >= 0))]
    r += mulfacts(B.b(i), B.cnt(i))
    return r


def hyp(c, i, j=None, k=None):
    """the preconditions on block i, copy j and element k"""
    B = blk(c)
    L = lay(c)
    st = c.s0
    T = B.T(i)
    g = B.inr(i)
    small = lambda x: And(x >= -LIM, x <= LIM)
    r = [imp(g, f) for f in (T.off == 0, T.obj != 0, T.obj > ALLOCA_HI, T.obj < st.brk, B.cnt(i) >= 0, B.cnt(i) < 2 ** 31, B.b(i) >= 0, small(B.d(i)),
                             small(B.bd(i, 'lb')), small(B.bd(i, 'ub')), st.size[T.obj] >= L.pairs + L.ps * B.cnt(i), st.size[T.obj] >= L.pairs,
                             small(mulF(B.b(i), B.ext(i))))]
    r.append(imp(And(g, B.cnt(i) > 0), isk(B.kind0(i))))
    XL, XU, DL, DU = [c.local[x] for x in ('XL', 'XU', 'DL', 'DU')]
    act = And(g, B.b(i) != 0)
    r += [imp(And(act, B.low(i)), XL <= B.d(i)), imp(And(act, B.upp(i)), XU >= B.d(i))]
    if j is not None:
        gj = And(g, j >= 0, j < B.b(i))
        r += [imp(gj, small(mulF(j, B.ext(i)))),
              imp(And(gj, B.plain(i), B.o(i, 'o_lb') != 0), XL <= B.lbc(i, j)),
              imp(And(gj, B.plain(i), B.o(i, 'o_ub') != 0), XU >= B.ubc(i, j))]
        if k is not None:
            gk = And(gj, k >= 0, k < B.cnt(i), B.plain(i))
            r += [imp(gk, And(small(disp(c, st, T, k)), isk(B.elk(i, k)))),
                  imp(gk, And(DL <= B.eld(i, j, k), B.eld(i, j, k) + slen(B.elk(i, k)) <= DU))]
    return r


def S3(c):
    return c.local['bI'], c.local['bJ'], c.local['bK']


def isel(c):
    """(bI, bJ, bK) is an element of the new type map"""
    B = blk(c)
    i, j, k = S3(c)
    return And(B.inr(i), B.plain(i), j >= 0, j < B.b(i), k >= 0, k < B.cnt(i))


def struct_setup(c, st):
    lay(c)
    B = blk(c)
    st.g['out'] = z3.Int('out_0')
    for x in ('XL', 'XU', 'DL', 'DU'):
        st.assume(inrange(c.local[x], 64))


def struct_pre(c):
    B = blk(c)
    i, j, k = S3(c)
    a = c.a
    st = c.s0
    I0, J0, K0 = z3.Ints('i!h j!h k!h')
    r = [('count is not negative', B.n >= 0)]
    if type(B) is Blocks:
        r += [out(c, 4, 8), ('the argument arrays', And(user(a[1].obj), user(a[2].obj), user(a[3].obj), valid(st, a[1], 4 * B.n), valid(st, a[2], 8 * B.n), valid(st, a[3], 8 * B.n)))]
    r += [('the type map is not too long', And(cumF(B.n) >= 0, cumF(B.n) < 2 ** 31 - 1)),
         # preconditions that hold for every block, copy and element; used at the ones named here and at the current one of each loop
         ('valid blocks', And(*hyp(c, i, j, k)))]
    return r


def struct_axioms(c):
    i, j, k = S3(c)
    B = blk(c)
    return slen_axioms() + defs(c, i) + mulmono(j + 1, B.b(i), B.cnt(i))


def placed(c, st, below):
    """the element (bI, bJ, bK) is in place, if it comes before the given point"""
    B = blk(c)
    L = lay(c)
    i, j, k = S3(c)
    T = Ptr(c.s0.brk, 0)
    P = B.idx(i, j, k)
    return imp(And(isel(c), below), And(disp(c, st, T, P) == B.eld(i, j, k), kind(c, st, T, P) == B.elk(i, k)))


def allgood(c, st, n, T=None):
    """what is known of every element of the new map before index n"""
    L = lay(c)
    T = T or Ptr(c.s0.brk, 0)
    f = z3.Int('f!g')
    r64, r32 = row(st, 64, T.obj), row(st, 32, T.obj)
    DL, DU = c.local['DL'], c.local['DU']
    g = And(f >= L.pairs + L.pd, f < L.pairs + L.ps * n, (f - L.pairs - L.pd) % L.ps == 0)
    k = r32[f + (L.pk - L.pd)]
    return forall([f], imp(g, And(r64[f] >= DL, r64[f] >= -2 ** 62, r64[f] <= 2 ** 62, isk(k), r64[f] + slen(k) <= DU)), [r64[f]])


def minmax_invs(lc, T, n, P):
    """a loop over the elements of T: least displacement and greatest element end, seen from the element P"""
    c, t, st = lc.c, lc.t, lc.st
    DL, DU = c.local['DL'], c.local['DU']
    res = []
    for nm in lc.nonaff:
        x = lc.phis.get(nm)
        if x is None or isinstance(x, Ptr) or z3.is_bool(x) or lc.ty[nm].a != 64:
            continue
        dP, kP = disp(c, st, T, P), kind(c, st, T, P)
        inP = And(P >= 0, P < n, P < t)
        if not islow(lc, nm, x) is False:
            res += [(nm + ' least', And(imp(t > 0, x >= DL), imp(inP, x <= dP))), (nm + ' least of the first', imp(t > 0, x <= disp(c, st, T, IV(0))))]
        if not islow(lc, nm, x) is True:
            res += [(nm + ' greatest', And(imp(t > 0, x <= DU), imp(inP, x >= dP + slen(kP)))),
                    (nm + ' greatest of the first', imp(t > 0, x >= disp(c, st, T, IV(0))))]
        res += [(nm + ' range', imp(t > 0, And(x >= -2 ** 62, x <= 2 ** 62 + 64))), (nm + ' range0', imp(t == 0, x == lc.init[nm]))]
    return res


def islow(lc, nm, x):
    """True: this variable looks for a least value (it starts at the largest number); False: for a greatest one; None: unknown"""
    roles = lc.c.local.setdefault('roles', {})
    i = z3.simplify(lc.init[nm])
    r = (i.as_long() > 0) if z3.is_int_value(i) else roles.get(i.get_id())
    roles[x.get_id()] = r
    lc.c.local.setdefault('keep', []).append(x)
    return r


def struct_invs(lc):
    c, t, st = lc.c, lc.t, lc.st
    B = blk(c)
    L = lay(c)
    i, j, k = S3(c)
    XL, XU, DL, DU = [c.local[x] for x in ('XL', 'XU', 'DL', 'DU')]
    T = Ptr(c.s0.brk, 0)
    res = []
    ints = [(r, lc.phis[r], lc.ty[r].a) for r in lc.nonaff if r in lc.phis and not isinstance(lc.phis[r], Ptr) and not z3.is_bool(lc.phis[r])]
    if lc.depth > 0 and not lc.outer and lc.fn.name in ('calc_lb', 'calc_ub'):
        return minmax_invs(lc, T, cnt(c, lc.entry, T), B.idx(i, j, k))
    if lc.fn.name != 'Type_struct':
        return []
    lv = len(lc.outer)
    if lv == 0:
        st.assume(*(defs(c, t) + hyp(c, t)))
        below = i < t
        for nm, x, w in ints:
            if w == 32:
                res.append((nm + ' counts', x == cumF(t)))
            if w == 8:
                res += [(nm + ' lower', x == olbF(t)), (nm + ' upper', x == oubF(t))]
        pos = cumF(t)
    elif lv == 1:
        i0 = lc.outer[0]
        st.assume(*(defs(c, i0) + hyp(c, i0, t) + mulmono(t + 1, B.b(i0), B.cnt(i0)) + mulfacts(t, B.cnt(i0)) + mulfacts(t, B.ext(i0))))
        below = Or(i < i0, And(i == i0, j < t))
        pos = cumF(i0) + mulF(t, B.cnt(i0))
        for nm, x, w in ints:
            if w == 32:
                res.append((nm + ' counts', x == pos))
    else:
        i0, j0 = lc.outer[:2]
        st.assume(*hyp(c, i0, j0, t))
        below = Or(i < i0, And(i == i0, Or(j < j0, And(j == j0, k < t))))
        pos = cumF(i0) + mulF(j0, B.cnt(i0)) + t
    res += [(r + ' cursor', And(x.obj == T.obj, x.off == L.pairs + L.ps * pos)) for r, x in lc.phis.items() if r in lc.nonaff and isinstance(x, Ptr)]
    st.assume(*mulmono(j + 1, B.b(i), B.cnt(i)))
    act = And(B.inr(i), B.b(i) != 0)
    for nm, x, w in ints:
        if w == 64:
            bl = Or(i < lc.outer[0], And(i == lc.outer[0], j < t)) if lv == 1 else i < t
            jj = And(B.inr(i), B.plain(i), j >= 0, j < B.b(i))
            r = islow(lc, nm, x)
            if r is not False:
                res += [(nm + ' lower bound', x >= XL), (nm + ' low markers', imp(And(act, B.low(i)), x <= B.d(i))),
                        (nm + ' low inherited', imp(And(jj, B.o(i, 'o_lb') != 0, bl), x <= B.lbc(i, j)))]
                if lv == 0:
                    res.append((nm + ' low markers so far', imp(And(act, B.low(i), i < t), x <= B.d(i))))
            if r is not True:
                res += [(nm + ' upper bound', x <= XU), (nm + ' upp markers', imp(And(act, B.upp(i)), x >= B.d(i))),
                        (nm + ' upp inherited', imp(And(jj, B.o(i, 'o_ub') != 0, bl), x >= B.ubc(i, j)))]
                if lv == 0:
                    res.append((nm + ' upp markers so far', imp(And(act, B.upp(i), i < t), x >= B.d(i))))
    res += [('index before the current one', imp(And(isel(c), below), And(B.idx(i, j, k) < pos, B.idx(i, j, k) >= 0))),
            ('placed', placed(c, st, below)), ('count is set', cnt(c, st, T) == cumF(B.n)), ('all good', allgood(c, st, pos))]
    return res


def struct_post(c, N=None):
    B = blk(c)
    L = lay(c)
    i, j, k = S3(c)
    s1 = c.s1
    N = N or s1.ld('p', c.a[4])
    n = cumF(B.n)
    XL, XU, DL, DU = [c.local[x] for x in ('XL', 'XU', 'DL', 'DU')]
    lb, ub = s1.ld(64, N, L.lb), s1.ld(64, N, L.ub)
    olb, oub = s1.ld(32, N, L.o_lb), s1.ld(32, N, L.o_ub)
    P = B.idx(i, j, k)
    act = And(B.inr(i), B.b(i) != 0)
    cj = And(act, B.plain(i), j >= 0, j < B.b(i))
    return [ok(c, 'C09'),
            ('C09,C23: a new datatype object with room for its map', And(N.off == 0, N.obj >= c.s0.brk, s1.size[N.obj] >= L.pairs + L.ps * n)),
            ('C09: as many elements as the blocks have', s1.ld(32, N, L.count) == n),
            ('C09: every element of every copy of every block, in order, at its displacement',
             imp(isel(c), And(P >= 0, P < n, disp(c, s1, N, P) == B.eld(i, j, k), kind(c, s1, N, P) == B.elk(i, k)))),
            ('C09,C19: not committed, not in use', And(s1.ld(32, N, L.committed) == 0, s1.ld(32, N, L.pending) == 0, s1.ld(32, N, L.freed) == 0)),
            ('C10: bounds are overridden exactly when markers occur', And((olb != 0) == (olbF(B.n) == 1), (oub != 0) == (oubF(B.n) == 1))),
            ('C10: the lower bound is not below every marker', imp(olb != 0, lb >= XL)),
            ('C10: the lower bound is at most each lower marker', imp(And(olb != 0, act, B.low(i)), lb <= B.d(i))),
            ('C10: the lower bound is at most each inherited marker', imp(And(olb != 0, cj, B.o(i, 'o_lb') != 0), lb <= B.lbc(i, j))),
            ('C10: the upper bound is not above every marker', imp(oub != 0, ub <= XU)),
            ('C10: the upper bound is at least each upper marker', imp(And(oub != 0, act, B.upp(i)), ub >= B.d(i))),
            ('C10: the upper bound is at least each inherited marker', imp(And(oub != 0, cj, B.o(i, 'o_ub') != 0), ub >= B.ubc(i, j))),
            ('C10: without markers the lower bound is the least displacement',
             imp(olb == 0, And(imp(n == 0, lb == 0), imp(n > 0, lb >= DL), imp(isel(c), lb <= B.eld(i, j, k))))),
            ('C10: without markers the upper bound is the greatest element end',
             imp(oub == 0, And(imp(n == 0, ub == 0), imp(n > 0, ub <= DU), imp(isel(c), ub >= B.eld(i, j, k) + slen(B.elk(i, k)))))),
            ('C10: without markers the upper bound is not below the lower', imp(And(olb == 0, oub == 0), lb <= ub))]


# ------------------------------------------------------------------ least displacement, greatest element end
PX = z3.Int('P!x')


def mm_unit(nm, low):
    def st_(c, st):
        lay(c)
        blk(c)
        for x in ('DL', 'DU'):
            st.assume(inrange(c.local[x], 64))

    def pre(c):
        T, n = c.a[0], cnt(c, c.s0, c.a[0])
        L = lay(c)
        return [('a datatype', And(T.off == 0, T.obj != 0, n >= 0, n < 2 ** 31, c.s0.size[T.obj] >= L.pairs + L.ps * n, c.s0.size[T.obj] >= L.pairs)),
                ('every element', allgood(c, c.s0, n, T))]

    def post(c):
        T, n = c.a[0], cnt(c, c.s0, c.a[0])
        return [('C10: ' + l, f) for l, f in mm_post(c, c.s0, T, n, c.ret, PX, low)] + [('C10: no elements', imp(n == 0, c.ret == 0))]
    Unit(nm, Contract(nm, setup=st_, pre=pre, post=post, axioms=lambda c: slen_axioms(),
                      invs=lambda lc: minmax_invs(lc, lc.c.a[0], cnt(lc.c, lc.c.s0, lc.c.a[0]), PX)),
         ['C10', 'C09', 'C23'], callees=SL, title=nm + ' bounds every element')


def mm_post(c, st, T, n, r, P, low):
    DL, DU = c.local['DL'], c.local['DU']
    inP = And(P >= 0, P < n)
    if low:
        return [('not above the displacement of any element', imp(inP, r <= disp(c, st, T, P))),
                ('not below all displacements', imp(n > 0, And(r >= DL, r >= -2 ** 62, r <= 2 ** 62)))]
    return [('not below the end of any element', imp(inP, r >= disp(c, st, T, P) + slen(kind(c, st, T, P)))),
            ('not above all element ends', imp(n > 0, And(r <= DU, r >= -2 ** 62, r <= 2 ** 62 + 64)))]


mm_unit('calc_lb', True)
mm_unit('calc_ub', False)


def k_mm(low):
    nm = 'calc_lb' if low else 'calc_ub'

    def k(e, st, args, ins):
        T = args[0]
        c = e.rootctx
        B = blk(c)
        L = lay(c)
        n = cnt(c, st, T)
        e.oblige(st, And(T.off == 0, T.obj != 0, n >= 0, n < 2 ** 31, st.size[T.obj] >= L.pairs + L.ps * n, st.size[T.obj] >= L.pairs),
                 'call %s requires a datatype' % nm, ins)
        e.oblige(st, allgood(c, st, n, T), 'call %s requires every element' % nm, ins)
        r = fresh('r_' + nm)
        st.assume(inrange(r, 64), imp(n == 0, r == 0))
        for P in (B.idx(*S3(c)), IV(0)):
            st.assume(*[f for l, f in mm_post(c, st, T, n, r, P, low)])
        return [(st, r)]
    return cust(nm, k, [])


MM = {'calc_lb': k_mm(True), 'calc_ub': k_mm(False)}

Unit('Type_struct', Contract('Type_struct', setup=struct_setup, pre=struct_pre, axioms=struct_axioms, post=struct_post,
                             cells=lambda c: [('p', c.a[4])], sizes=True, invs=struct_invs),
     ['C09', 'C10', 'C23'], callees=dict(SL, **EXT, **MM), opts={'merge': True}, cost=20)


# ------------------------------------------------------------------ the other constructors
def k_struct(e, st, args, ins):
    """Type_struct as the other constructors call it: the blocks it is given are those the constructor's arguments describe
    (for every block), so that the new type is the one of the contract of Type_struct"""
    n, bp, dp, Tp, newp = args
    c = e.rootctx
    B = blk(c)
    L = lay(c)
    i, f = fresh('i'), fresh('f')
    e.oblige(st, n == B.n, 'call Type_struct requires C09: the number of blocks', ins)
    e.oblige(st, And(valid(st, bp, 4 * n), valid(st, dp, 8 * n), valid(st, Tp, 8 * n), valid(st, newp, 8)), 'call Type_struct requires valid arrays and result cell', ins)
    s = st.copy()
    s.assume(B.inr(i))
    s.assume(*(B.facts(i) if hasattr(B, 'facts') else []))
    s.assume(*(B.pre_at(c, i) if getattr(B, 'pre_at', None) else []))
    e.oblige(s, s.ld(32, bp, 4 * i) == B.b(i), 'call Type_struct requires C09: the length of every block', ins)
    e.oblige(s, s.ld(64, dp, 8 * i) == B.d(i), 'call Type_struct requires C09: the displacement of every block', ins)
    e.oblige(s, s.ld('p', Tp, 8 * i).eq(B.T(i)), 'call Type_struct requires C09: the old type of every block', ins)
    s.assume(*hyp(c, i))
    for w in (32, 64):
        e.oblige(s, s.mem[w][B.T(i).obj][f] == c.s0.mem[w][B.T(i).obj][f], 'call Type_struct requires unchanged old types (%d-bit data)' % w, ins)
    o = st.brk
    b = fresh('brk')
    st.assume(b == o + 1)
    st.brk = b
    sz = fresh('sz')
    st.size = z3.Store(st.size, o, sz)
    st.newobjs.append(o)
    for m in MAPS:
        st.mem[m] = z3.Store(st.mem[m], o, fresh('S%s' % m, A1))
        if st.stores is not None:
            st.stores.append((m, o, IV(0), None))
    N = Ptr(o, 0)
    st.put('p', newp, N)
    x = Ctx(e, c.s0, c.a, st, IV(0))
    x.local = c.local
    st.assume(*[q for l, q in struct_post(x, N)])
    return [(st, IV(0))]


STRUCT = {'Type_struct': cust('Type_struct', k_struct, list(MAPS) + ['size'])}


def wrap_invs(lc):
    c, t = lc.c, lc.t
    B = blk(c)
    lc.st.assume(*hyp(c, t))
    if hasattr(B, 'facts'):
        # the second block tells how far apart evenly spaced blocks are
        lc.st.assume(*(B.facts(t) + B.facts(IV(1)) + hyp(c, IV(1))))
    if B.pre_at:
        lc.st.assume(*[imp(B.inr(t), f) for f in B.pre_at(c, t)])
    res = []
    if isinstance(B, ByHandle):
        # an array of the datatypes that the handles denote
        f = z3.Int('f!h')
        for (m, _), (o, arr) in lc.inner.items():
            if m in ('po', 'pf') and z3.is_int_value(z3.simplify(o)):
                T = B.T(f / 8)
                res.append(('the datatypes of the handles so far %s' % m, forall([f], imp(And(f >= 0, f < 8 * t, f % 8 == 0), arr[f] == (T.obj if m == 'po' else T.off)), [arr[f]])))
    return res


def constructor(nm, view, newi, extra=None, old=None, pre_at=None, facts=None, arrays=(), only=(False, True)):
    """nm (on datatype objects) and MPI_nm (on handles): the constructor whose blocks are view(c)"""
    for mpi in only:
        fn = ('MPI_' if mpi else '') + nm
        if mpi and nm == 'Type_hvector':
            fns = [fn, 'MPI_Type_create_hvector']
        else:
            fns = [fn]

        def mk(c, mpi=mpi):
            T = None if old is None else named(c, old) if mpi else c.a[old]
            B = view(c, T) if view else ByHandle(c)
            B.facts = (lambda i: facts(c, i)) if facts else (lambda i: [])
            B.pre_at = pre_at
            return B

        def st_(c, st, mpi=mpi):
            ghosts(c, st)
            struct_setup(c, st)

        def pre(c, mpi=mpi):
            r = [('count is not negative', blk(c).n >= 0), ('a result cell', And(user(c.a[newi].obj), valid(c.s0, c.a[newi], 4 if mpi else 8)))]
            if mpi and old is not None:
                r += [('a datatype handle', isdt(c, c.s0, c.a[old])), naming(c, old)]
            if old is not None:
                T = blk(c).Tp
                r += typeok(c, c.s0, T) + [('an existing object', T.obj < c.s0.brk), ('the result cell is not part of the old type', c.a[newi].obj != T.obj)]
            for j, w in arrays:
                r.append(('argument array %d' % j, And(user(c.a[j].obj), valid(c.s0, c.a[j], w * c.a[0]))))
                r.append(('the result cell is not part of argument array %d' % j, disjoint(c.a[newi], 8, c.a[j], w * c.a[0])))
            return r + (extra(c) if extra else []) + struct_pre(c)

        def post(c, mpi=mpi):
            if not mpi:
                return struct_post(c, c.s1.ld('p', c.a[newi]))
            h = c.s1.ld(32, c.a[newi])
            return [('C01,C09: a handle of its own', And(h > 0, Not(c.s0.g['live'][h]), c.s1.g['live'] == z3.Store(c.s0.g['live'], h, z3.BoolVal(True))))] + \
                struct_post(c, c.s1.ld('p', Ptr(slot(h), 0)))
        for f in fns:
            VIEWS[f] = mk
            Unit(f, Contract(f, setup=st_, pre=pre, post=post, axioms=struct_axioms, invs=wrap_invs, sizes=True, regions=slotframe if mpi else None,
                             cells=(lambda c: [(32, c.a[newi])]) if mpi else (lambda c: [('p', c.a[newi])]), ghosts=('live', 'hinit') if mpi else ()),
                 ['C09', 'C10', 'C23'] + (['C01'] if mpi else []), callees=dict(SL, **EXT, **STRUCT, **(HANDLES if mpi else {})), cost=3)


def ext(c):
    B = blk(c)
    return text(B.Tp.obj)


small = lambda x: And(x >= -LIM, x <= LIM)
constructor('Type_contiguous', lambda c, T: Uniform(c, c.a[0], T, lambda c, i: IV(1), lambda c, i: mulF(i, ext(c))), 2, old=1,
            facts=lambda c, i: mulfacts(i, ext(c)))


at = lambda c, w, i, n: c.s0.ld(w, c.a[i], (w // 8) * n)
constructor('Type_hvector', lambda c, T: Uniform(c, c.a[0], T, lambda c, i: c.a[1], lambda c, i: mulF(i, c.a[2])), 4, old=3,
            facts=lambda c, i: mulfacts(i, c.a[2]))
constructor('Type_vector', lambda c, T: Uniform(c, c.a[0], T, lambda c, i: c.a[1], lambda c, i: mulF(i, mulF(c.a[2], ext(c)))), 4, old=3,
            extra=lambda c: [('the stride in bytes is representable', small(mulF(c.a[2], ext(c))))],
            facts=lambda c, i: mulfacts(i, mulF(c.a[2], ext(c))) + mulfacts(c.a[2], ext(c)))
constructor('Type_hindexed', lambda c, T: Uniform(c, c.a[0], T, lambda c, i: at(c, 32, 1, i), lambda c, i: at(c, 64, 2, i)), 4, old=3, arrays=((1, 4), (2, 8)))
constructor('Type_indexed', lambda c, T: Uniform(c, c.a[0], T, lambda c, i: at(c, 32, 1, i), lambda c, i: mulF(at(c, 32, 2, i), ext(c))), 4, old=3,
            arrays=((1, 4), (2, 4)), facts=lambda c, i: mulfacts(at(c, 32, 2, i), ext(c)))
constructor('Type_create_indexed_block', lambda c, T: Uniform(c, c.a[0], T, lambda c, i: c.a[1], lambda c, i: mulF(at(c, 32, 2, i), ext(c))), 4, old=3,
            arrays=((2, 4),), facts=lambda c, i: mulfacts(at(c, 32, 2, i), ext(c)))
constructor('Type_struct', None, 4, arrays=((1, 4), (2, 8), (3, 4)), only=(True,), pre_at=lambda c, i: [isdt(c, c.s0, at(c, 32, 3, i)), c.a[4].obj != blk(c).T(i).obj])
