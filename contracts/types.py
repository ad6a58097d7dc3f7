"""type.c queries, commit and free (C10, C09, C11, C13, C23), Pack_size.

A datatype object T holds count, bounds, markers and `count` pairs (displacement, kind).  The basic element j of T
starts at disp(j) and has slen(kind(j)) bytes.
"""
from .base import *
from .lib import *
from .consts import K, allk
from .groups import out, ok

slen = z3.Function('slen', I, I)
text = z3.Function('text', I, I)          # extent of the datatype object (entry state)
tsum = z3.Function('tsum', I, I, I)       # object, n -> bytes in the first n elements
LIM = 2 ** 60

# the native size of every kind of basic element (LP64; Fortran default kinds of gfortran)
NATIVE = {'CHAR': 1, 'SHORT': 2, 'INT': 4, 'LONG': 8, 'UCHAR': 1, 'USHORT': 2, 'UINT': 4, 'ULONG': 8, 'FLOAT': 4, 'DOUBLE': 8,
          'LDOUBLE': 16, 'BYTE': 1, 'LOWER': 0, 'UPPER': 0, 'FINTEGER': 4, 'FREAL': 4, 'FDPRECISION': 8, 'FCOMPLEX': 8, 'FDCOMPLEX': 16,
          'FLOGICAL': 4, 'FCHARACTER': 1, 'FINTEGER1': 1, 'FINTEGER2': 2, 'FINTEGER4': 4, 'FINTEGER8': 8, 'FINTEGER16': 16, 'FREAL4': 4,
          'FREAL8': 8, 'FREAL16': 16, 'FCOMPLEX8': 8, 'FCOMPLEX16': 16, 'FCOMPLEX32': 32, 'LONGLONG': 8, 'ULONGLONG': 8, 'OFFSET': 8}


def kinds():
    return {K('SIMPLE_' + n): v for n, v in NATIVE.items()}


def isk(k):
    ks = sorted(kinds())
    if ks == list(range(ks[0], ks[-1] + 1)):
        return And(k >= ks[0], k <= ks[-1])
    return Or(*[k == x for x in ks])


def slen_axioms(full=False):
    x = z3.Int('x!k')
    r = [forall([x], And(slen(x) >= 0, slen(x) <= 64), [slen(x)])]
    if full:
        r += [slen(IV(k)) == v for k, v in kinds().items()]
    return r


class Lay:
    def __init__(s, c):
        f = lambda n: c.off('Typestruct', n)
        s.count, s.ub, s.lb, s.committed, s.o_lb, s.o_ub = [f(n) for n in ('count', 'ub', 'lb', 'committed', 'o_lb', 'o_ub')]
        s.pairs = f('pairs')
        s.ps = c.eng.sizeof('typepair')
        s.pd, s.pk = c.off('typepair', 'disp'), c.off('typepair', 'type')
        s.hdr = s.pairs
        try:
            s.pending, s.freed = f('pending'), f('freed')
        except Unsupported:
            s.pending = s.freed = None


def lay(c):
    if 'lay' not in c.local:
        c.local['lay'] = Lay(c)
    return c.local['lay']


def cnt(c, st, T):
    return st.ld(32, T, lay(c).count)


def disp(c, st, T, j):
    L = lay(c)
    return st.ld(64, T, L.pairs + L.ps * j + L.pd)


def kind(c, st, T, j):
    L = lay(c)
    return st.ld(32, T, L.pairs + L.ps * j + L.pk)


def elen(c, st, T, j):
    return slen(kind(c, st, T, j))


def simpletypes(c):
    m = c.eng.prog.mods.get('type_const') or c.eng.prog.mods['type']
    return c.eng.globptr('simpletypes', m)


def tcell(c, h):
    S = simpletypes(c)
    return pite(h < 0, Ptr(S.obj, 8 * (-1 - h)), Ptr(slot(h), 0))


def dtptr(c, st, h):
    """the datatype object that handle h denotes"""
    S = simpletypes(c)
    hs = z3.simplify(h)
    return pite(h < 0, st.ld('p', Ptr(S.obj, 8 * (-1 - h))), st.ld('p', Ptr(slot(h), 0)))


def npre(c):
    """how many predefined handles exist: -1 ... -npre"""
    vs = [v for k, v in allk().items() if k in PREDEF]
    return -min(vs)


PREDEF = {'MPI_' + n for n in (
    'CHAR SHORT INT LONG UNSIGNED_CHAR UNSIGNED_SHORT UNSIGNED UNSIGNED_LONG FLOAT DOUBLE LONG_DOUBLE BYTE PACKED LB UB INTEGER REAL '
    'DOUBLE_PRECISION COMPLEX DOUBLE_COMPLEX LOGICAL CHARACTER 2REAL 2DOUBLE_PRECISION 2INTEGER FLOAT_INT DOUBLE_INT LONG_INT 2INT '
    'SHORT_INT LONG_DOUBLE_INT INTEGER1 INTEGER2 INTEGER4 INTEGER8 INTEGER16 REAL4 REAL8 REAL16 COMPLEX8 COMPLEX16 COMPLEX32 '
    'LONG_LONG UNSIGNED_LONG_LONG OFFSET SIGNED_CHAR WCHAR').split()}


def isdt(c, st, h):
    """h is a predefined or a live user datatype"""
    return And(Or(And(h < 0, h >= -npre(c)), And(h > 0, st.g['live'][h], st.g['hinit'], st.size[slot(h)] == c.eng.sizeof('Req'))))


def typeok(c, st, T, tag=''):
    """T is a datatype object (count, storage and kinds of its elements)"""
    L = lay(c)
    n = cnt(c, st, T)
    f = z3.Int('f!t')
    r32, r64 = row(st, 32, T.obj), row(st, 64, T.obj)
    lo = L.pairs
    lb, ub = st.ld(64, T, L.lb), st.ld(64, T, L.ub)
    small = lambda x: And(x >= -LIM, x <= LIM)
    rng = lambda k: And(f >= lo + k, f < lo + L.ps * n, (f - lo - k) % L.ps == 0)
    return [
        ('a datatype' + tag, And(T.off == 0, T.obj != 0, T.obj > ALLOCA_HI, n >= 0, n < 2 ** 31, small(lb), small(ub),
                                 st.size[T.obj] >= L.pairs + L.ps * n, st.size[T.obj] >= L.pairs)),
        ('known kinds of elements' + tag, forall([f], imp(rng(L.pk), isk(r32[f])), [r32[f]])),
        ('moderate displacements' + tag, forall([f], imp(rng(L.pd), small(r64[f])), [r64[f]])),
    ]


def apart(p, n, T):
    """the n bytes at p are not part of the datatype object"""
    return p.obj != T.obj


# ------------------------------------------------------------------ folds over the elements
def foldinit(c, st, T):
    """the folds of the entry state's type map, as functions of the number of elements seen"""
    o = {}
    for nm in ('mx', 'sum', 'mnd', 'mxe'):
        o[nm] = z3.Function('%s!%d' % (nm, len(_folds)), I, I)
        _folds.append(o[nm])
    c.local['folds'] = o
    return o


_folds = []


def unfold(c, T, n):
    """definitions of the folds at n+1 (for n >= 0)"""
    F, s = c.local['folds'], c.s0
    l, d = elen(c, s, T, n), disp(c, s, T, n)
    mx = lambda a, b: If(a >= b, a, b)
    mn = lambda a, b: If(a <= b, a, b)
    g = n >= 0
    return [F['mx'](0) == 0, F['sum'](0) == 0,
            imp(g, F['mx'](n + 1) == mx(F['mx'](n), l)),
            imp(g, F['sum'](n + 1) == F['sum'](n) + l),
            imp(n == 0, F['mnd'](n + 1) == d), imp(n > 0, F['mnd'](n + 1) == mn(F['mnd'](n), d)),
            imp(n == 0, F['mxe'](n + 1) == d + l), imp(n > 0, F['mxe'](n + 1) == mx(F['mxe'](n), d + l))]


def foldinvs(lc, T, cells=()):
    """what an accumulator of any of these loops may hold after t elements"""
    c, t = lc.c, lc.t
    F = c.local['folds']
    n = cnt(c, c.s0, T)
    lc.st.assume(*(unfold(c, T, t) + unfold(c, T, z3.simplify(t - 1)) + unfold(c, T, n - t - 1)))
    res = [('sum from the end', imp(t <= n, And(F['sum'](n - t) <= F['sum'](n), F['sum'](n) - F['sum'](n - t) <= 64 * t)))]
    accs = []
    for r in lc.nonaff:
        if r in lc.phis and not isinstance(lc.phis[r], Ptr) and not z3.is_bool(lc.phis[r]):
            accs.append((r, lc.phis[r], lc.init[r]))
    for i, (w, p) in enumerate(cells):
        accs.append(('cell%d' % i, lc.st.ld(w, p), lc.entry.ld(w, p)))
    for nm, x, x0 in accs:
        res.append((nm + ' sums', x == x0 + F['sum'](t)))
        res.append((nm + ' sums from the end', x == x0 + F['sum'](n) - F['sum'](n - t)))
        for k in ('mx', 'mnd', 'mxe'):
            res.append((nm + ' folds ' + k, x == If(t == 0, x0, F[k](t))))
    res.append(('sum bounds', And(F['sum'](t) >= 0, F['sum'](t) <= 64 * t)))
    res.append(('mx bounds', And(F['mx'](t) >= 0, F['mx'](t) <= 64)))
    res.append(('mnd bounds', imp(t > 0, And(F['mnd'](t) >= -LIM, F['mnd'](t) <= LIM))))
    res.append(('mxe bounds', imp(t > 0, And(F['mxe'](t) >= -LIM, F['mxe'](t) <= LIM + 64))))
    return res


# ------------------------------------------------------------------ Simpletype_length
Unit('Simpletype_length', Contract(
    'Simpletype_length', axioms=lambda c: slen_axioms(True), aborts=lambda c: Not(isk(c.a[0])),
    post=lambda c: [('C10,C11: the native size of the kind', c.ret == slen(c.a[0]))]), ['C05', 'C09', 'C10', 'C11', 'C12', 'C13', 'C19'])

SIMPLE = Contract('Simpletype_length', pre=lambda c: [('a known kind', isk(c.a[0]))],
                  post=lambda c: [('its size', And(c.ret == slen(c.a[0]), c.ret >= 0, c.ret <= 64))])
SL = {'Simpletype_length': SIMPLE}


def q1(nm, post, props, cells=None, extra=(), T=None, setup=None, more=None, callees=None, title=None, calc=False, outw=None):
    """query on one datatype; T: pointer of the datatype as function of the context"""
    T = T or (lambda c: c.a[0])

    def st_(c, st):
        ghosts(c, st)
        lay(c)
        foldinit(c, st, None)
        st.g['out'] = z3.Int('out_0')
        if setup:
            setup(c, st)

    def pre(c):
        t = T(c)
        r = typeok(c, c.s0, t)
        if outw:
            i, n = outw
            r += [out(c, i, n), ('the result is not part of the datatype', c.a[i].obj != t.obj)]
        return (more(c) if more else []) + r + (extra(c) if extra else [])
    Unit(nm, Contract(nm, setup=st_, pre=pre, axioms=lambda c: slen_axioms(), post=post,
                      cells=cells, invs=lambda lc: foldinvs(lc, T(lc.c), cells(lc.c) if cells else ())),
         props, callees=dict(callees or {}, **SL), title=title)


QP = ['C10', 'C11']
fold = lambda c, k, n: c.local['folds'][k](n)
INT_MIN, LONG_MIN, LONG_MAX = -2 ** 31, -2 ** 63, 2 ** 63 - 1


def extspec(c, T, n=None):
    L = lay(c)
    s = c.s0
    n = cnt(c, s, T)
    d = s.ld(64, T, L.ub) - s.ld(64, T, L.lb)
    E = fold(c, 'mx', n)
    m = modF(d, E)
    return If(Or(s.ld(32, T, L.o_lb) != 0, s.ld(32, T, L.o_ub) != 0), d, If(Or(E <= 0, m == 0), d, d + (E - m)))


def spanok(c, T):
    L = lay(c)
    s = c.s0
    return [('upper bound not below lower bound, unless marked',
             imp(And(s.ld(32, T, L.o_lb) == 0, s.ld(32, T, L.o_ub) == 0), s.ld(64, T, L.ub) >= s.ld(64, T, L.lb)))]


q1('Type_extent', lambda c: [('C05,C09,C10,C11,C12,C14: upper minus lower bound, padded to the largest element unless marked', c.s1.ld(64, c.a[1]) == extspec(c, c.a[0])),
                             ok(c, 'C10,C11')], QP + ['C05', 'C09', 'C12', 'C14'], cells=lambda c: [(64, c.a[1])], outw=(1, 8), extra=lambda c: spanok(c, c.a[0]))
q1('Type_size', lambda c: [('C10,C11: the sum of the element sizes', c.s1.ld(32, c.a[1]) == fold(c, 'sum', cnt(c, c.s0, c.a[0]))), ok(c, 'C10,C11')],
   QP, cells=lambda c: [(32, c.a[1])], outw=(1, 4),
   extra=lambda c: [('the size is representable', z3.And(fold(c, 'sum', cnt(c, c.s0, c.a[0])) < 2 ** 31, sumall(c, c.a[0])))])


def sumall(c, T):
    n = z3.Int('n!s')
    F = c.local['folds']['sum']
    return forall([n], imp(And(n >= 0, n <= cnt(c, c.s0, T)), F(n) < 2 ** 31), [F(n)])


q1('calc_lb', lambda c: [('C10,C11: the least displacement', c.ret == If(cnt(c, c.s0, c.a[0]) == 0, IV(0), fold(c, 'mnd', cnt(c, c.s0, c.a[0]))))], QP)
q1('calc_ub', lambda c: [('C10,C11: the greatest element end', c.ret == If(cnt(c, c.s0, c.a[0]) == 0, IV(0), fold(c, 'mxe', cnt(c, c.s0, c.a[0]))))], QP)
q1('Pack_size', lambda c: [('C13: count times the size of the datatype', c.s1.ld(64, c.a[3]) == mulF(fold(c, 'sum', cnt(c, c.s0, c.a[1])), c.a[0])), ok(c, 'C13')],
   ['C13'], cells=lambda c: [(64, c.a[3])], T=lambda c: c.a[1], outw=(3, 8),
   extra=lambda c: [('the size is representable', inrange(mulF(fold(c, 'sum', cnt(c, c.s0, c.a[1])), c.a[0]), 64))])

# the same through handles
def named(c, i):
    """the datatype object of handle argument i, under a name of its own"""
    k = 'T%d' % i
    if k not in c.local:
        c.local[k] = Ptr(z3.Const(k + '.o', I), IV(0))
    return c.local[k]


def naming(c, i):
    return ('the datatype of argument %d' % i, named(c, i).eq(dtptr(c, c.s0, c.a[i])))


T0 = lambda i: (lambda c: named(c, i))


def viah(nm, post, props, hi, outw, extra=(), cells=None):
    T = T0(hi)
    q1(nm, lambda c: post(c, T(c)), props, T=T, outw=outw, extra=(lambda c: extra(c, T(c))) if extra else (), cells=cells,
       more=lambda c: [('a datatype handle', isdt(c, c.s0, c.a[hi])), naming(c, hi)], callees=HANDLES)


c64 = lambda i: (lambda c: [(64, c.a[i])])
viah('MPI_Type_extent', lambda c, T: [('C05,C09,C10,C11,C12,C14: upper minus lower bound, padded to the largest element unless marked', c.s1.ld(64, c.a[1]) == extspec(c, T)),
                                      ok(c, 'C10,C11')], QP + ['C14'], 0, (1, 8), lambda c, T: spanok(c, T), c64(1))
viah('MPI_Type_size', lambda c, T: [('C10,C11: the sum of the element sizes', c.s1.ld(32, c.a[1]) == fold(c, 'sum', cnt(c, c.s0, T))), ok(c, 'C10,C11')],
     QP, 0, (1, 4), lambda c, T: [('the size is representable', And(fold(c, 'sum', cnt(c, c.s0, T)) < 2 ** 31, sumall(c, T)))], lambda c: [(32, c.a[1])])
viah('MPI_Type_lb', lambda c, T: [('C10,C11: the lower bound', c.s1.ld(64, c.a[1]) == c.s0.ld(64, T, lay(c).lb)), ok(c, 'C10,C11')], QP, 0, (1, 8), (), c64(1))
viah('MPI_Type_ub', lambda c, T: [('C10,C11: the upper bound', c.s1.ld(64, c.a[1]) == c.s0.ld(64, T, lay(c).ub)), ok(c, 'C10,C11')], QP, 0, (1, 8), (), c64(1))
viah('MPI_Pack_size', lambda c, T: [('C13: count times the size of the datatype', c.s1.ld(64, c.a[3]) == mulF(fold(c, 'sum', cnt(c, c.s0, T)), c.a[0])),
                                    ok(c, 'C13')], ['C13'], 1, (3, 8),
     lambda c, T: [('a communicator', And(c.a[2] >= 0, imp(c.a[2] > 0, c.s0.g['live'][c.a[2]]))),
                   ('the size is representable', inrange(mulF(fold(c, 'sum', cnt(c, c.s0, T)), c.a[0]), 64))], c64(3))


def k_extent(e, st, args, ins):
    """Type_extent as its callers see it: the extent of the datatype object, which must still be as it was on entry"""
    T, r = args
    e.oblige(st, valid(st, r, 8), 'call Type_extent requires a valid result cell', ins)
    e.oblige(st, And(T.off == 0, T.obj != 0), 'call Type_extent requires a datatype', ins)
    f = fresh('f')
    for w in (32, 64):
        e.oblige(st, st.mem[w][T.obj][f] == e.rootctx.s0.mem[w][T.obj][f], 'call Type_extent requires an unchanged datatype (%d-bit data)' % w, ins)
    v = text(T.obj)
    st.assume(v >= -2 ** 62, v <= 2 ** 62)
    st.put(64, r, v)
    return [(st, IV(0))]


EXT = {'Type_extent': cust('Type_extent', k_extent, [64])}


def mulmono(a, b, c):
    """arithmetic: a <= b and c >= 0 gives a*c <= b*c"""
    return [imp(And(a <= b, c >= 0), mulF(a, c) <= mulF(b, c))] + mulfacts(a, c) + mulfacts(b, c)


# ------------------------------------------------------------------ commit, free, pending use
def life(nm, hi, post, props, deref=False, pre=None, cells=None, sizes=False, gh=()):
    """operations on the life cycle of the datatype of handle argument hi"""
    def h(c):
        return c.s0.ld(32, c.a[hi]) if deref else c.a[hi]

    def st_(c, st):
        ghosts(c, st)
        lay(c)

    def pre_(c):
        T = named(c, hi)
        r = [('a datatype handle', isdt(c, c.s0, h(c))), ('its datatype', T.eq(dtptr(c, c.s0, h(c)))),
             ('a datatype', And(T.obj != 0, c.s0.size[T.obj] >= lay(c).pairs, T.obj > ALLOCA_HI, T.obj != simpletypes(c).obj))]
        if deref:
            r.append(out(c, hi, 4))
            r.append(('the handle variable is not part of a datatype', And(user(c.a[hi].obj), c.a[hi].obj != T.obj)))
        return r + (pre(c, T, h(c)) if pre else [])
    Unit(nm, Contract(nm, setup=st_, pre=pre_, post=lambda c: post(c, named(c, hi), h(c)), cells=lambda c: cells(c, named(c, hi)),
                      sizes=sizes, ghosts=gh), props, callees=HANDLES)


def gone(c, T, h, P):
    """the datatype and its handle are released, nothing else is"""
    o, x = sk('o'), sk('h')
    return [(P + ': its storage is released', c.s1.size[T.obj] == -1),
            (P + ': no other storage is released', imp(And(o != T.obj, o != slot(h), Or(o > ALLOCA_HI, o <= SLOT0)), c.s1.size[o] == c.s0.size[o])),
            (P + ': its handle is released and no other', c.s1.g['live'][x] == And(x != h, c.s0.g['live'][x]))]


def kept(c, P):
    x, o = sk('h'), sk('o')
    return [(P + ': no storage is released', imp(Or(o > ALLOCA_HI, o <= SLOT0), c.s1.size[o] == c.s0.size[o])), (P + ': no handle is released', c.s1.g['live'][x] == c.s0.g['live'][x])]


def when(g, xs):
    return [(l, imp(g, f)) for l, f in xs]


def _free_post(c, T, h):
    L = lay(c)
    busy = c.s0.ld(32, T, L.pending) > 0
    return [('C09: the handle variable becomes null', c.s1.ld(32, c.a[0]) == 0), ok(c, 'C09')] + \
        when(Not(busy), gone(c, T, h, 'C09,C23')) + \
        when(busy, kept(c, 'C06,C23') + [('C06,C23: marked to go when its last operation completes', c.s1.ld(32, T, L.freed) == 1)])


userT = lambda c, T, h: [('a user datatype', And(h > 0, T.obj > 0, c.s0.size[T.obj] >= 0))]
life('MPI_Type_commit', 0, lambda c, T, h: [('C09,C19: the datatype is committed', c.s1.ld(32, T, lay(c).committed) == 1), ok(c, 'C09')], ['C09', 'C19'],
     deref=True, cells=lambda c, T: [(32, T + lay(c).committed)])
life('MPI_Type_free', 0, _free_post, ['C09', 'C06', 'C23'], deref=True, pre=userT, sizes=True, gh=('live', 'dts', 'reqs', 'comms'),
     cells=lambda c, T: [(32, T + lay(c).freed), (32, c.a[0])])
life('Type_hold', 0, lambda c, T, h: [('C06,C23: one more pending operation', c.s1.ld(32, T, lay(c).pending) == c.s0.ld(32, T, lay(c).pending) + 1)],
     ['C06', 'C23'], cells=lambda c, T: [(32, T + lay(c).pending)],
     pre=lambda c, T, h: [('fewer than 2^31 - 1 pending operations', c.s0.ld(32, T, lay(c).pending) < 2 ** 31 - 1)])


def _release_post(c, T, h):
    L = lay(c)
    last = And(c.s0.ld(32, T, L.pending) == 1, c.s0.ld(32, T, L.freed) != 0)
    return when(last, gone(c, T, h, 'C06,C23')) + when(Not(last), kept(c, 'C06,C23') + [
        ('C06,C23: one pending operation less', c.s1.ld(32, T, L.pending) == c.s0.ld(32, T, L.pending) - 1),
        ('C06,C23: still marked as before', c.s1.ld(32, T, L.freed) == c.s0.ld(32, T, L.freed))])


life('Type_release', 0, _release_post, ['C06', 'C23'], sizes=True, gh=('live', 'dts', 'reqs', 'comms'),
     cells=lambda c, T: [(32, T + lay(c).pending), (32, T + lay(c).freed)],
     pre=lambda c, T, h: [('the operation was pending', c.s0.ld(32, T, lay(c).pending) >= 1),
                          ('only user datatypes are freed', imp(c.s0.ld(32, T, lay(c).freed) != 0, And(h > 0, T.obj > 0, c.s0.size[T.obj] >= 0)))])


# ------------------------------------------------------------------ counts of received messages
def gcount(c, T):
    n, d = c.s0.ld(32, c.a[0], c.off('MPI_Status', 'get_count')), cnt(c, c.s0, T)
    q, m = divF(n, d), modF(n, d)
    return If(d == 0, IV(0), If(m != 0, IV(K('MPI_UNDEFINED')), q))


def statusin(c, T):
    p = c.a[0]
    return [('a status', And(valid(c.s0, p, c.eng.sizeof('MPI_Status')), user(p.obj))),
            ('of a receive', c.s0.ld(32, p, c.off('MPI_Status', 'get_count')) >= 0)]


c32_ = lambda i: (lambda c: [(32, c.a[i])])
viah('MPI_Get_count', lambda c, T: [('C24: the number of items received, if whole', c.s1.ld(32, c.a[2]) == gcount(c, T)), ok(c, 'C24')],
     ['C24'], 1, (2, 4), statusin, c32_(2))
viah('MPI_Get_elements', lambda c, T: [('C24: the number of basic elements received', c.s1.ld(32, c.a[2]) == c.s0.ld(32, c.a[0], c.off('MPI_Status', 'get_count'))), ok(c, 'C24')],
     ['C24'], 1, (2, 4), statusin, c32_(2))
