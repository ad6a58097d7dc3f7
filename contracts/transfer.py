"""copy.c and pack.c (C05, C12, C13, C19).

Transfer of n basic elements: element i of a type map repeated at its extent starts at  disp(i mod count) + (i div count) * extent.
The proof follows one arbitrary element I, one arbitrary byte B of it and one arbitrary offset F outside the destination elements.

BUF / BUFP / BUFU ("the buffers hold the described elements, which do not overlap") and OUT / OUTU ("the offset lies in no
destination element") are predicates defined by the quantified formulas that `hyp` instantiates; callers pass them on.
"""
from .base import *
from .lib import *
from .consts import K, allk
from .groups import out, ok
from .types import *

Bl = z3.BoolSort()
BUF = z3.Function('BUF', I, I, I, I, I, I, I, Bl)        # source, offset, its datatype, destination, offset, its datatype, elements
OUT = z3.Function('OUT', I, I, I, I, Bl)                 # offset F, destination offset, datatype, elements
BUFP = z3.Function('BUFP', I, I, I, I, I, I, I, Bl)      # typed buffer, offset, datatype, count, packed buffer, offset, position
OUTU = z3.Function('OUTU', I, I, I, I, Bl)               # offset F, typed buffer's offset, datatype, count
tsumF = z3.Function('bytes', I, I, I)                    # datatype, j -> bytes in its first j elements
small = lambda x: And(x >= -LIM, x <= LIM)
sI, sJ, sB, sF = z3.Ints('bI bJ bB bF')


class Xfer:
    """n elements from (S, Ts) to (D, Td), in the entry state"""

    def __init__(x, c, S, Ts, D, Td, n):
        x.c, x.S, x.Ts, x.D, x.Td, x.n = c, S, Ts, D, Td, n
        x.st = c.s0
        x.cs, x.cd = cnt(c, x.st, Ts), cnt(c, x.st, Td)

    def so(x, i):
        return disp(x.c, x.st, x.Ts, modF(i, x.cs)) + mulF(divF(i, x.cs), text(x.Ts.obj))

    def do(x, i):
        return disp(x.c, x.st, x.Td, modF(i, x.cd)) + mulF(divF(i, x.cd), text(x.Td.obj))

    def ls(x, i):
        return slen(kind(x.c, x.st, x.Ts, modF(i, x.cs)))

    def ld(x, i):
        return slen(kind(x.c, x.st, x.Td, modF(i, x.cd)))

    def inr(x, i):
        return And(i >= 0, i < x.n)

    def buf(x):
        return BUF(x.S.obj, x.S.off, x.Ts.obj, x.D.obj, x.D.off, x.Td.obj, x.n)

    def outp(x, f):
        return OUT(f, x.D.off, x.Td.obj, x.n)

    def inel(x, i, f):
        return And(f >= x.D.off + x.do(i), f < x.D.off + x.do(i) + x.ld(i))

    def hyp(x, i, j):
        """BUF at elements i (destination) and j"""
        g = And(x.buf(), x.inr(i))
        r = []
        for T, k, o, P, l in ((x.Ts, x.cs, x.so, x.S, x.ls), (x.Td, x.cd, x.do, x.D, x.ld)):
            r += [imp(And(g, k > 0), And(isk(kind(x.c, x.st, T, modF(i, k))), small(disp(x.c, x.st, T, modF(i, k))), small(mulF(divF(i, k), text(T.obj))))),
                  imp(And(g, k > 0, x.ld(i) > 0), valid(x.st, P + o(i), l(i)))]
            r += divfacts(i, k) + mulfacts(divF(i, k), text(T.obj))
        r += [imp(And(g, x.cs > 0, x.cd > 0), x.ls(i) == x.ld(i)),
              imp(And(g, x.inr(j), x.cs > 0, x.cd > 0), disjoint(x.D + x.do(i), x.ld(i), x.S + x.so(j), x.ls(j))),
              imp(And(g, x.inr(j), i != j, x.cd > 0), disjoint(x.D + x.do(i), x.ld(i), x.D + x.do(j), x.ld(j))),
              imp(And(x.outp(sF), x.inr(i)), Not(x.inel(i, sF)))]
        return r

    def moved(x, st, below=None):
        g = And(x.inr(sI), sB >= 0, sB < x.ld(sI))
        if below is not None:
            g = And(g, sI < below)
        return imp(g, st.mem[8][x.D.obj][x.D.off + x.do(sI) + sB] == x.st.mem[8][x.S.obj][x.S.off + x.so(sI) + sB])

    def kept(x, st):
        return imp(x.outp(sF), st.mem[8][x.D.obj][sF] == x.st.mem[8][x.D.obj][sF])

    def source(x, st, frm):
        return imp(And(x.inr(sI), sI >= frm, sB >= 0, sB < x.ld(sI)),
                   st.mem[8][x.S.obj][x.S.off + x.so(sI) + sB] == x.st.mem[8][x.S.obj][x.S.off + x.so(sI) + sB])

    def invs(x, lc):
        t, st = lc.t, lc.st
        st.assume(*(x.hyp(t, sI) + x.hyp(t, t)))
        return x.cyclic(lc) + [('moved', x.moved(st, t)), ('others kept', x.kept(st)), ('source kept', x.source(st, t))]

    def cyclic(x, lc):
        """candidates for loops that keep the element's index in its item and the item's position in variables of their own"""
        r, t = [], lc.t
        nums = [(n, v) for n, v in lc.phis.items() if n in lc.nonaff and z3.is_expr(v) and v.sort() == I]
        ptrs = [(n, v) for n, v in lc.phis.items() if n in lc.nonaff and isinstance(v, Ptr)]
        if not nums + ptrs:
            return r
        for w, T, k, P in (('source', x.Ts, x.cs, x.S), ('destination', x.Td, x.cd, x.D)):
            m, d, e = modF(t, k), divF(t, k), text(T.obj)
            lc.st.assume(*(divstep(t, k) + divfacts(t, k) + mulfacts(d, e) + [imp(k > 0, mulF(d + 1, e) == mulF(d, e) + e), imp(k > 0, mulF(d - 1, e) == mulF(d, e) - e)]))
            r += [('%s: %s of the %s' % (n, u, w), v == q) for n, v in nums for u, q in (('index', m), ('item', d), ('item offset', mulF(d, e)))]
            r += [('%s: item of the %s' % (n, w), And(v.obj == P.obj, v.off == P.off + mulF(d, e))) for n, v in ptrs]
            for n, v in nums:
                late = And(v == k, m == 0, t > 0)
                r += [('%s: index of the %s or its end' % (n, w), Or(v == m, late))]
                r += [('%s, %s: element of the %s or its end' % (n, n2, w), And(v2.obj == P.obj, Or(And(v == m, v2.off == P.off + mulF(d, e)), And(late, v2.off + e == P.off + mulF(d, e))))) for n2, v2 in ptrs]
                r += [('%s, %s: element of the %s or its end, %s' % (n, n2, w, u), Or(And(v == m, v2 == q), And(late, v2 + s_ == q)))
                      for n2, v2 in nums if n2 != n for u, q, s_ in (('item', d, 1), ('offset', mulF(d, e), e))]
        return r

    def post(x, t, P, g=None):
        s = lambda f: imp(g, f) if g is not None else f
        return [(P + ': every element transferred arrives, in type-map order', s(x.moved(t))),
                (P + ': no byte outside the destination elements is changed', s(x.kept(t)))]


def dtp(c, T, tag=''):
    """what is required of a datatype object"""
    L = lay(c)
    n = cnt(c, c.s0, T)
    return [('a datatype' + tag, And(T.off == 0, T.obj != 0, T.obj > ALLOCA_HI, n >= 0, n < 2 ** 31, c.s0.size[T.obj] >= L.pairs + L.ps * n,
                                     c.s0.size[T.obj] >= L.pairs, tsumF(T.obj, n) >= 0, tsumF(T.obj, n) < 2 ** 31))]


def bufptr(c, p, tag):
    return ('the %s buffer is the caller\'s' % tag, And(user(p.obj), small(p.off)))


def msetup(c, st):
    lay(c)
    st.g['out'] = z3.Int('out_0')


def xf(c, f):
    if 'xf' not in c.local:
        c.local['xf'] = f(c)
    return c.local['xf']


PC = lambda c: xf(c, lambda c: Xfer(c, *[c.a[k] for k in (0, 1, 2, 3, 4)]))
Unit('Pcopy_elements', Contract(
    'Pcopy_elements', setup=msetup,
    pre=lambda c: dtp(c, c.a[1], ' (source)') + dtp(c, c.a[3], ' (destination)') + [
        bufptr(c, c.a[0], 'source'), bufptr(c, c.a[2], 'destination'), ('datatypes with elements, if any are transferred', imp(c.a[4] > 0, And(PC(c).cs > 0, PC(c).cd > 0))),
        ('the buffers hold the elements', PC(c).buf())],
    axioms=lambda c: slen_axioms() + PC(c).hyp(sI, sI),
    post=lambda c: PC(c).post(c.s1, "C05") + [ok(c, 'C05')],
    regions=lambda c: {8: lambda o, f: o == PC(c).D.obj}, invs=lambda lc: PC(lc.c).invs(lc)),
    ['C05', 'C14', 'C19', 'C23'], callees=dict(SL, **EXT), title='Pcopy_elements')


# ------------------------------------------------------------------ whole transfers
def unchanged_types(e, st, what, ins):
    f, o = fresh('f'), None
    for T in what:
        for w in (32, 64):
            e.oblige(st, st.mem[w][T.obj][f] == e.rootctx.s0.mem[w][T.obj][f], 'call: the datatype is as on entry (%d-bit data)' % w, ins)


def newbytes(e, st, o):
    m = st.mem[8]
    a = fresh('A8', A1)
    st.mem[8] = z3.Store(m, o, a)
    if st.stores is not None:
        st.stores.append((8, o, IV(0), None))
    return m


def k_pcopyel(e, st, args, ins):
    """Pcopy_elements as its callers see it"""
    S, Ts, D, Td, n = args
    c = e.rootctx
    x = Xfer(c, S, Ts, D, Td, n)
    unchanged_types(e, st, [Ts, Td], ins)
    e.oblige(st, imp(n > 0, And(x.cs > 0, x.cd > 0)), 'call Pcopy_elements requires datatypes with elements', ins)
    e.oblige(st, x.buf(), 'call Pcopy_elements requires buffers that hold the elements', ins)
    x.st = st.copy()
    newbytes(e, st, D.obj)
    x.st.mem[32], x.st.mem[64] = c.s0.mem[32], c.s0.mem[64]
    st.assume(x.moved(st), x.kept(st))
    st.trace.append(('moved', D.obj))
    return [(st, IV(0))]


PCE = {'Pcopy_elements': cust('Pcopy_elements', k_pcopyel, [8])}


def datatype(c, T):
    return c.s0.ld(32, T, lay(c).committed) != 0


def nodata(c, st):
    """nothing has been written"""
    o, f = sk('o'), sk('f')
    return [('C19: nothing has been written', st.mem[8][o][f] == c.s0.mem[8][o][f])]


def two(c, S, sc, Ts, D, dc, Td):
    """the transfer of a collective: as many elements as the destination describes"""
    x = xf(c, lambda c: Xfer(c, S, Ts, D, Td, mulF(dc, cnt(c, c.s0, Td))))
    x.have = mulF(cnt(c, c.s0, Ts), sc)
    x.refuse = Or(Not(And(datatype(c, Ts), datatype(c, Td))), x.have < x.n)
    return x


def twofacts(c, x, sc, dc):
    return mulfacts(x.cs, sc) + mulfacts(x.cd, dc)


def twopre(c, x, sc, dc):
    return [('the number of elements is representable', And(sc >= 0, dc >= 0, x.have < 2 ** 31, x.n < 2 ** 31)),
            bufptr(c, x.S, 'source'), bufptr(c, x.D, 'destination'), ('the buffers hold the elements', imp(Not(x.refuse), x.buf()))]


P2 = lambda c: two(c, *c.a)
Unit('Pcopy_data2', Contract(
    'Pcopy_data2', setup=msetup, pre=lambda c: dtp(c, c.a[2], ' (source)') + dtp(c, c.a[5], ' (destination)') + twopre(c, P2(c), c.a[1], c.a[4]),
    axioms=lambda c: slen_axioms() + P2(c).hyp(sI, sI) + twofacts(c, P2(c), c.a[1], c.a[4]),
    aborts=lambda c: P2(c).refuse, abort_state=nodata,
    post=lambda c: P2(c).post(c.s1, 'C05,C14') + [ok(c, 'C05'), ('C05,C19: not more elements than are contributed', Not(P2(c).refuse))],
    regions=lambda c: {8: lambda o, f: o == P2(c).D.obj}, invs=lambda lc: P2(lc.c).invs(lc)),
    ['C05', 'C14', 'C19', 'C23'], callees=dict(SL, **EXT, **PCE))


# through handles
def C2(c):
    a = c.a
    return two(c, a[0], a[1], named(c, 2), a[3], a[4], named(c, 5))


def hsetup(c, st):
    ghosts(c, st)
    msetup(c, st)


def htypes(*idx):
    return lambda c: [x for i in idx for x in [('a datatype handle', isdt(c, c.s0, c.a[i])), naming(c, i)] + dtp(c, named(c, i), ' (%d)' % i)]


Unit('copy_data2', Contract(
    'copy_data2', setup=hsetup, pre=lambda c: htypes(2, 5)(c) + twopre(c, C2(c), c.a[1], c.a[4]),
    axioms=lambda c: slen_axioms() + C2(c).hyp(sI, sI) + twofacts(c, C2(c), c.a[1], c.a[4]),
    aborts=lambda c: C2(c).refuse, abort_state=nodata,
    post=lambda c: C2(c).post(c.s1, 'C05,C14') + [ok(c, 'C05'), ('C05,C19: not more elements than are contributed', Not(C2(c).refuse))],
    regions=lambda c: {8: lambda o, f: o == C2(c).D.obj}, invs=lambda lc: C2(lc.c).invs(lc)),
    ['C05', 'C14', 'C19', 'C23'], callees=dict(HANDLES, **SL, **EXT, **PCE))


# ------------------------------------------------------------------ packing
class Packing:
    """n items of T at B <-> packed buffer K (size Z bytes) from position p on; element (i, j) is element j of item i"""

    def __init__(x, c, Bf, n, T, K_, Z, p, unpack, st=None):
        x.c, x.B, x.n, x.T, x.K, x.Z, x.p, x.un = c, Bf, n, T, K_, Z, p, unpack
        x.st = st or c.s0
        x.k = cnt(c, x.st, T)
        x.size = tsumF(T.obj, x.k)
        x.total = mulF(n, x.size)
        x.fits = p + x.total <= Z

    def l(x, j):
        return elen(x.c, x.st, x.T, j)

    def o(x, i, j):
        return disp(x.c, x.st, x.T, j) + mulF(i, text(x.T.obj))

    def q(x, i, j):
        return x.p + mulF(i, x.size) + tsumF(x.T.obj, j)

    def inr(x, i, j):
        return And(i >= 0, i < x.n, j >= 0, j < x.k)

    def buf(x):
        return BUFP(x.B.obj, x.B.off, x.T.obj, x.n, x.K.obj, x.K.off, x.p)

    def outp(x, f):
        return OUTU(f, x.B.off, x.T.obj, x.n)

    def sums(x, j):
        s = lambda a: tsumF(x.T.obj, a)
        J = z3.Int('sJ')
        g = And(j >= 0, j < x.k)
        return [s(0) == 0, imp(g, s(j + 1) == s(j) + x.l(j)), imp(And(j >= 0, j <= x.k), And(s(j) >= 0, s(j) <= x.size)),
                imp(g, And(s(j + 1) <= x.size, s(j + 1) >= 0))]

    def mono(x, j, m):
        s = lambda a: tsumF(x.T.obj, a)
        return [imp(And(j >= 0, j < m, m <= x.k), s(j + 1) <= s(m)), imp(And(m >= 0, m < j, j <= x.k), s(m + 1) <= s(j))]

    def prods(x, i):
        z = x.size
        m = lambda a: mulF(a, z)
        return mulfacts(i, z) + mulfacts(i + 1, z) + mulfacts(x.n, z) + mulfacts(i, text(x.T.obj)) + [
            imp(And(i >= 0, i < x.n, z >= 0), And(m(i) >= 0, m(i) + z <= x.total, m(i + 1) <= x.total))]

    def order(x, i, h):
        """items before others"""
        z = x.size
        return [imp(And(i >= 0, i < h, z >= 0), mulF(i, z) + z <= mulF(h, z)), imp(And(h >= 0, h < i, z >= 0), mulF(h, z) + z <= mulF(i, z))]

    def hyp(x, i, j):
        """BUFP at elements (i, j) and (sI, sJ)"""
        g = And(x.buf(), x.inr(i, j))
        h = And(g, x.inr(sI, sJ))
        return x.sums(j) + x.prods(i) + x.mono(j, sJ) + x.order(i, sI) + [
            imp(g, And(isk(kind(x.c, x.st, x.T, j)), small(disp(x.c, x.st, x.T, j)), small(mulF(i, text(x.T.obj))))),
            imp(And(g, x.l(j) > 0), valid(x.st, x.B + x.o(i, j), x.l(j))),
            imp(x.buf(), x.p >= 0),
            # the packed buffer and the described elements do not overlap
            imp(And(g, x.l(j) > 0), disjoint(x.B + x.o(i, j), x.l(j), x.K + x.p, x.Z - x.p)),
            imp(And(h, x.un, Or(i != sI, j != sJ)), disjoint(x.B + x.o(i, j), x.l(j), x.B + x.o(sI, sJ), x.l(sJ))),
            imp(And(x.un, x.outp(sF), x.inr(i, j)), Not(And(sF >= x.B.off + x.o(i, j), sF < x.B.off + x.o(i, j) + x.l(j))))]

    def src(x, st, i, j):
        return st.mem[8][x.K.obj][x.K.off + x.q(i, j) + sB] if x.un else st.mem[8][x.B.obj][x.B.off + x.o(i, j) + sB]

    def dst(x, st, i, j):
        return st.mem[8][x.B.obj][x.B.off + x.o(i, j) + sB] if x.un else st.mem[8][x.K.obj][x.K.off + x.q(i, j) + sB]

    @property
    def D(x):
        return x.B if x.un else x.K

    def here(x):
        return And(x.inr(sI, sJ), sB >= 0, sB < x.l(sJ))

    def moved(x, st, below=None):
        g = And(x.here(), below) if below is not None else x.here()
        return imp(g, x.dst(st, sI, sJ) == x.src(x.st, sI, sJ))

    def source(x, st, frm):
        g = x.q(sI, sJ) + x.l(sJ) <= x.Z if x.un else z3.BoolVal(True)
        return imp(And(x.here(), frm, g), x.src(st, sI, sJ) == x.src(x.st, sI, sJ))

    def kept(x, st):
        o = x.outp(sF) if x.un else Or(sF < x.K.off + x.p, sF >= x.K.off + x.p + x.total)
        return imp(o, st.mem[8][x.D.obj][sF] == x.st.mem[8][x.D.obj][sF])

    def invs(x, lc, posc):
        t, st = lc.t, lc.st
        lv = len(lc.outer)
        if lv == 0:
            st.assume(*(x.hyp(t, IV(0)) + x.sums(z3.simplify(x.k)) + x.prods(t)))
            now, below = x.q(t, IV(0)), sI < t
        else:
            i = lc.outer[0]
            st.assume(*(x.hyp(i, t) + x.sums(t) + x.prods(i)))
            now, below = x.q(i, t), Or(sI < i, And(sI == i, sJ < t))
        pos = [('the position', posc(st) == now), ('the position as before', posc(st) == x.p)] if posc else []
        it = mulF(t if lv == 0 else i, text(x.T.obj))
        pos += roles(lc, [('position', now), ('advance', now - x.p), ('room left', x.Z - now), ('item offset', it)],
                     [('cursor', x.K + now), ('item', x.B + it)])
        return pos + [('within the buffer', imp(now > x.p, now <= x.Z)), ('moved', x.moved(st, below)), ('others kept', x.kept(st)), ('source kept', x.source(st, Not(below)))]

    def post(x, t, P, g=None):
        s = lambda f: imp(g, f) if g is not None else f
        w = 'unpacked' if x.un else 'packed'
        return [(P + ': every element is %s, in type-map order at its position' % w, s(x.moved(t))), (P + ': no other byte is changed', s(x.kept(t)))]


def packunits(nm, un):
    # arguments: Pack(inbuf, incount, type, outbuf, outsize, position)   Unpack(inbuf, insize, position, outbuf, outcount, type)
    ib, ic, it, ik, iz, ip = (3, 4, 5, 0, 1, 2) if un else (0, 1, 2, 3, 4, 5)
    for hd in (False, True):
        T = (lambda c: named(c, it)) if hd else (lambda c: c.a[it])
        X = lambda c, T=T: xf(c, lambda c: Packing(c, c.a[ib], c.a[ic], T(c), c.a[ik], c.a[iz], c.s0.ld(32, c.a[ip]), un))

        def pre(c, X=X, T=T, hd=hd):
            x = X(c)
            r = ([('a datatype handle', isdt(c, c.s0, c.a[it])), naming(c, it), ('a communicator', And(c.a[6] >= 0, imp(c.a[6] > 0, c.s0.g['live'][c.a[6]])))] if hd else [])
            return r + dtp(c, T(c)) + [
                out(c, ip, 4), ('the position is not part of the datatype or buffers', And(*[c.a[ip].obj != y.obj for y in (T(c), c.a[ib], c.a[ik])])),
                ('a nonnegative count', x.n >= 0), ('a position in the packed buffer', And(x.p >= 0, x.p <= x.Z)),
                bufptr(c, x.B, 'typed'), bufptr(c, x.K, 'packed'), ('the packed buffer has the stated size', valid(c.s0, x.K, x.Z)),
                ('the buffers hold the data', x.buf())]

        def post(c, X=X):
            x = X(c)
            P = 'C12'
            return x.post(c.s1, 'C05,C12') + [ok(c, P), (P + ',C13: the position advances by exactly the size of the data', c.s1.ld(32, c.a[ip]) == x.p + x.total),
                                              (P + ': the data fits', x.fits)]

        def ax(c, X=X):
            x = X(c)
            return slen_axioms() + x.hyp(sI, sJ) + x.prods(sI) + x.sums(x.k) + x.sums(sJ) + mulfacts(x.n, x.size)
        Unit(('MPI_' if hd else '') + nm, Contract(
            ('MPI_' if hd else '') + nm, setup=hsetup if hd else msetup, pre=pre, axioms=ax, aborts=lambda c, X=X: Not(X(c).fits), post=post,
            cells=lambda c: [(32, c.a[ip])], regions=lambda c, X=X: {8: lambda o, f: o == X(c).D.obj},
            invs=lambda lc, X=X: X(lc.c).invs(lc, lambda st: st.ld(32, lc.c.a[ip]))),
            ['C12', 'C13', 'C23', 'C05'], callees=dict(SL, **EXT, **(HANDLES if hd else {})))


packunits('Pack', False)
packunits('Unpack', True)


# ------------------------------------------------------------------ messages
def k_packing(un):
    nm = 'Unpack' if un else 'Pack'

    def f(e, st, args, ins):
        if un:
            K_, Z, pp, Bf, n, T = args[:6]
        else:
            Bf, n, T, K_, Z, pp = args[:6]
        c = e.rootctx
        e.oblige(st, valid(st, pp, 4), 'call %s requires a valid position cell' % nm, ins)
        x = Packing(c, Bf, n, T, K_, Z, st.ld(32, pp), un)
        unchanged_types(e, st, [T], ins)
        e.oblige(st, And(n >= 0, x.p >= 0, x.p <= x.Z), 'call %s requires a position in the packed buffer' % nm, ins)
        e.oblige(st, x.buf(), 'call %s requires buffers that hold the data' % nm, ins)
        st.assume(*(x.sums(x.k) + mulfacts(x.n, x.size)))
        if e.feasible(st, Not(x.fits)):
            s2 = st.copy()
            s2.assume(Not(x.fits))
            newbytes(e, s2, x.D.obj)
            e.end_abort(s2, 'in %s: the data does not fit' % nm, ins)
        st.assume(x.fits)
        x.st = st.copy()
        newbytes(e, st, x.D.obj)
        x.st.mem[32], x.st.mem[64] = c.s0.mem[32], c.s0.mem[64]
        st.assume(x.moved(st), x.kept(st))
        st.put(32, pp, x.p + x.total)
        return [(st, IV(0))]
    return cust(nm, f, [8, 32])


def k_size(e, st, args, ins):
    """Type_size: the sum of the element sizes"""
    T, r = args
    e.oblige(st, valid(st, r, 4), 'call Type_size requires a valid result cell', ins)
    unchanged_types(e, st, [T], ins)
    st.put(32, r, tsumF(T.obj, cnt(e.rootctx, e.rootctx.s0, T)))
    return [(st, IV(0))]


MSGC = {'Pack': k_packing(False), 'Unpack': k_packing(True), 'Type_size': cust('Type_size', k_size, [32])}


class Message:
    """source, src_count, src_type, dest, dest_count, dest_type"""

    def __init__(m, c):
        a = c.a
        m.c = c
        m.S, m.sc, m.st_, m.D, m.dc, m.dt = a
        m.Ts, m.Td = named(c, 2), named(c, 5)
        byt = lambda t: Or(t == K('MPI_BYTE'), t == K('MPI_PACKED'))
        m.unp = And(byt(m.st_), Not(byt(m.dt)))
        m.pck = And(byt(m.dt), Not(byt(m.st_)))
        m.els = Not(Or(m.unp, m.pck))
        cs, cd = cnt(c, c.s0, m.Ts), cnt(c, c.s0, m.Td)
        zs, zd = tsumF(m.Ts.obj, cs), tsumF(m.Td.obj, cd)
        lim = lambda n, have, z: If(And(z > 0, divF(have, z) < n), divF(have, z), n)
        m.dn, m.sn = lim(m.dc, m.sc, zd), lim(m.sc, m.dc, zs)
        hs, hd = mulF(cs, m.sc), mulF(cd, m.dc)
        m.n = If(hd < hs, hd, hs)
        m.x = Xfer(c, m.S, m.Ts, m.D, m.Td, m.n)
        m.u = Packing(c, m.D, m.dn, m.Td, m.S, m.sc, IV(0), True)
        m.p = Packing(c, m.S, m.sn, m.Ts, m.D, m.dc, IV(0), False)
        m.refuse = Not(And(datatype(c, m.Ts), datatype(c, m.Td)))
        m.count = If(m.unp, mulF(m.dn, cd), If(m.pck, m.p.total, m.n))
        m.facts = []
        for q, z in ((m.sc, zd), (m.dc, zs)):
            m.facts += divfacts(q, z) + mulfacts(divF(q, z), z)
        m.facts += mulfacts(cs, m.sc) + mulfacts(cd, m.dc) + mulfacts(m.dn, zd) + mulfacts(m.sn, zs) + mulfacts(m.dn, cd)
        # fewer items have fewer bytes and elements
        m.facts += [imp(And(m.dn >= 0, m.dn <= m.dc, cd >= 0), mulF(m.dn, cd) <= mulF(m.dc, cd))] + mulfacts(m.dc, cd)
        for x in (m.u, m.p):
            m.facts += x.sums(x.k)
        m.lims = And(m.sc >= 0, m.dc >= 0, hs < 2 ** 31, hd < 2 ** 31, mulF(m.sc, zs) < 2 ** 31, mulF(m.dc, zd) < 2 ** 31)
        # with no more items than fit, the bytes fit
        for k, have, z, n in ((m.dn, m.sc, zd, m.dc), (m.sn, m.dc, zs, m.sc)):
            m.facts += mulfacts(n, z) + [imp(And(k >= 0, z == 0), mulF(k, z) == 0),
                                         imp(And(k >= 0, z > 0, k <= divF(have, z)), mulF(k, z) <= mulF(divF(have, z), z))]


MS = lambda c: xf(c, Message)


def msg_pre(c):
    m = MS(c)
    return htypes(2, 5)(c) + [
        ('the message size is representable', m.lims), bufptr(c, m.S, 'source'), bufptr(c, m.D, 'destination'),
        ('the buffers hold what is transferred', imp(Not(m.refuse), And(imp(m.unp, m.u.buf()), imp(m.pck, m.p.buf()), imp(m.els, m.x.buf())))),
        ('the byte buffers have the stated size', And(imp(m.unp, valid(c.s0, m.S, m.sc)), imp(m.pck, valid(c.s0, m.D, m.dc))))]


def msg_post(c):
    m = MS(c)
    t = c.s1
    P = 'C05,C03'
    return [('C05,C19: both datatypes are committed', Not(m.refuse)), ('C05,C24: the number of elements received', c.ret == m.count)] + \
        m.u.post(t, 'C05', m.unp) + m.p.post(t, 'C05', m.pck) + m.x.post(t, 'C05', m.els)


Unit('copy_message', Contract(
    'copy_message', setup=hsetup, pre=msg_pre, axioms=lambda c: slen_axioms() + MS(c).facts, aborts=lambda c: MS(c).refuse, abort_state=nodata,
    post=msg_post, regions=lambda c: {8: lambda o, f: o == MS(c).D.obj}),
    ['C05', 'C19', 'C23', 'C24'], callees=dict(HANDLES, **SL, **EXT, **PCE, **MSGC))
