"""req.c, several requests at once (C07, with C06, C23, C24): MPI_Testall/Waitall/Testany/Waitany/Testsome/Waitsome.

R(i) is the request in position i on entry.  The non-null requests of the array are distinct (idx is their position), as the MPI
standard requires.  ALL, ANY (the position of the first complete active request), ACT (some request is active) and CN (number of complete
active requests among the first i) are defined over the entry state.
"""
from .base import *
from .lib import *
from .consts import K
from .spec import *
from . import p2p
from .p2p import pghosts, fld, reqok, ustatus, s_test, notype

TEFF = [32, 'size', ('g', 'live'), ('g', 'reqs'), ('g', 'comms'), ('g', 'dts')]
TEST = {'MPI_Test': contract_of('MPI_Test', s_test, TEFF)}
idxF = z3.Function('idx!m', I, I)
RF = z3.Function('R!m', I, I)
CN = z3.Function('CN!m', I, I)
CB = {**p2p.BASE, **TEST}


class M:
    """the vocabulary of one call: n requests at A, statuses at S (or ignored)"""

    def __init__(m, c, n, A, S=None):
        m.c, m.n, m.A, m.S, m.e = c, n, A, S, c.eng
        m.extra = []
        m.SZ = c.eng.sizeof('MPI_Status')
        m.F = [(c.off('MPI_Status', k), q) for k, q in zip(('MPI_SOURCE', 'MPI_TAG', 'get_count'), ('source', 'tag', 'count'))]

    def R(m, i, st=None):
        return RF(i) if st is None else st.mem[32][m.A.obj][m.A.off + 4 * i]

    def rdef(m):
        i, f = z3.Int('i!m'), z3.Int('f!m')
        r0 = row(m.c.s0, 32, m.A.obj)
        D = f - m.A.off
        return And(forall([i], imp(And(i >= 0, i < m.n), RF(i) == r0[m.A.off + 4 * i]), [RF(i)]),
                   forall([f], imp(And(D >= 0, D < 4 * m.n, D % 4 == 0), r0[f] == RF(D / 4)), [r0[f]]))

    def done(m, r):
        """request r (non-null) is complete on entry"""
        return fld(m.e, m.c.s0, slot(r), 'complete') != 0

    def act(m, i):
        return m.R(i) != 0

    def ac(m, i):
        return And(m.act(i), m.done(m.R(i)))

    def okc(m, i):
        return Or(Not(m.act(i)), m.done(m.R(i)))

    def word(m, r, k):
        """word k of the status that completing request value r gives"""
        off, q = m.F[k]
        empty = (K('MPI_ANY_SOURCE'), K('MPI_ANY_TAG'), 0)[k]
        return If(r == 0, IV(empty), fld(m.e, m.c.s0, slot(r), q))

    def pre(m, cells=()):
        c, n = m.c, m.n
        i = z3.Int('i!m')
        r = [('the requests', And(n >= 0, valid(c.s0, m.A, 4 * n), m.A.obj > 0, notype(c, m.A.obj))),
             ('the requests, by position', m.rdef()),
             ('null or live and distinct requests', forall([i], imp(And(i >= 0, i < n), Or(m.R(i) == 0, And(
                 m.R(i) >= 1, c.s0.g['reqs'][m.R(i)], idxF(m.R(i)) == i))), [m.R(i)]))]
        if m.S is not None:
            r.append(('the statuses, or none', Or(m.S.eq(NULL), And(valid(c.s0, m.S, m.SZ * n), m.S.obj > 0, disjoint(m.S, m.SZ * n, m.A, 4 * n)))))
        for j, sz in cells:
            p = c.a[j]
            r.append(('result %d' % j, And(valid(c.s0, p, sz), p.obj > 0, disjoint(p, sz, m.A, 4 * n))))
            if m.S is not None:
                r.append(('result %d apart from the statuses' % j, disjoint(p, sz, m.S, m.SZ * n)))
        h = z3.Int('h!v')
        g = c.s0.g
        r.append(('requests', And(g['hinit'], forall([h], imp(g['reqs'][h], And(*[f for _, f in reqok(m.e, c.s0, h)])), [g['reqs'][h]]))))
        return r

    # ---- what has happened once the first t positions have been dealt with (sel: which of them complete)
    def gone(m, x, t):
        """handle x was released"""
        j = idxF(x)
        return And(x >= 1, j >= 0, j < t, m.R(j) == x, m.done(x))

    def handles(m, st, t, entry):
        c = m.c
        x, o = z3.Int('x!m'), z3.Int('o!m')
        g, g0 = st.g, c.s0.g
        r = []
        for nm in ('live', 'reqs'):
            r.append((nm + ' handles', forall([x], g[nm][x] == And(g0[nm][x], Not(m.gone(x, t))), [g[nm][x]])))
        for nm in ('comms', 'dts'):
            r.append((nm + ' handles', forall([x], g[nm][x] == g0[nm][x], [g[nm][x]])))
        r.append(('sizes', forall([o], imp(Or(o > ALLOCA_HI, o <= SLOT0), st.size[o] == If(m.gone(SLOT0 - o, t), IV(-1), c.s0.size[o])), [st.size[o]])))
        r.append(('sizes of local variables', forall([o], imp(And(o <= ALLOCA_HI, o > SLOT0), st.size[o] == entry.size[o]), [st.size[o]])))
        return r

    def array(m, lc, t):
        c = m.c
        f = z3.Int('f!m')
        cur, old = rowof(lc, m.A.obj)[f], c.s0.mem[32][m.A.obj][f]
        D = f - m.A.off
        i = D / 4
        dealt = And(D >= 0, D % 4 == 0, i < t, m.ac(i))
        res = [('requests dealt with are null if they were complete', forall([f], imp(And(D >= 0, D < 4 * m.n), cur == If(dealt, IV(0), old)), [cur]))]
        for p in [m.A] + ([m.S] if m.S is not None else []):
            cur = rowof(lc, p.obj)[f]
            res.append(('nothing else changes', forall([f], imp(Not(m.inside(p.obj, f)), cur == c.s0.mem[32][p.obj][f]), [cur])))
        return res

    def inside(m, o, f):
        return Or(within(m.A, 4 * m.n, o, f), *([within(m.S, m.SZ * m.n, o, f)] if m.S is not None else []), *[within(p, n, o, f) for p, n in m.extra])


def rowof(lc, o):
    return row(lc.st, 32, o)


def defs_all(m):
    """ALL: every active request is complete"""
    i = z3.Int('i!m')
    ALL, w = z3.Bool('ALL!m'), z3.Int('w!m')
    return ALL, And(imp(ALL, forall([i], imp(And(i >= 0, i < m.n), m.okc(i)), [m.R(i)])), imp(Not(ALL), And(w >= 0, w < m.n, Not(m.okc(w)))))


def defs_any(m):
    i = z3.Int('i!m')
    J = z3.Int('J!m')
    return J, Or(And(J >= 0, J < m.n, m.ac(J), forall([i], imp(And(i >= 0, i < J), Not(m.ac(i))), [m.R(i)])),
                 And(J == -1, forall([i], imp(And(i >= 0, i < m.n), Not(m.ac(i))), [m.R(i)])))


def defs_act(m):
    i = z3.Int('i!m')
    ACT, w = z3.Bool('ACT!m'), z3.Int('wa!m')
    return ACT, And(imp(ACT, And(w >= 0, w < m.n, m.act(w))), imp(Not(ACT), forall([i], imp(And(i >= 0, i < m.n), Not(m.act(i))), [m.R(i)])))


def fieldat(m, f, base, pos):
    """f addresses word k of a status at position pos(f): the three cases"""
    D = f - base.off
    return [(And(D >= 0, D % m.SZ == off), D / m.SZ, k) for k, (off, _) in enumerate(m.F)]


# ------------------------------------------------------------------ test-all, wait-all
def all_unit(nm, n, A, S, flag=None, ignored=False):
    def mm(c):
        if 'm' not in c.local:
            c.local['m'] = M(c, c.a[n], c.a[A], None if ignored else c.a[S])
            if flag is not None:
                c.local['m'].extra = [(c.a[flag], 1)]
        return c.local['m']

    def setup(c, st):
        pghosts(c, st)

    def pre(c):
        m = mm(c)
        c.local['ALL'], d = defs_all(m)
        r = m.pre([(flag, 4)] if flag is not None else [])
        r.append(('statuses %s' % ('ignored' if ignored else 'wanted'), c.a[S].eq(NULL) if ignored else Not(c.a[S].eq(NULL))))
        return r + [('definition of "all complete"', d)]

    def stat(m, lc, t):
        if m.S is None:
            return []
        f = z3.Int('f!m')
        cur = rowof(lc, m.S.obj)[f]
        D = f - m.S.off
        return [('no status beyond', forall([f], imp(And(D >= m.SZ * t, D < m.SZ * m.n), cur == m.c.s0.mem[32][m.S.obj][f]), [cur]))] + \
            [('statuses so far, word %d' % k, forall([f], imp(And(g, j < t), cur == m.word(m.R(j), k)), [cur])) for g, j, k in fieldat(m, f, m.S, None)]

    def invs(lc):
        m = mm(lc.c)
        r = m.handles(lc.st, lc.t, lc.entry) + m.array(lc, lc.t) + stat(m, lc, lc.t)
        i = z3.Int('i!m')
        seen = forall([i], imp(And(i >= 0, i < lc.t), m.okc(i)), [m.R(i)])
        r.append(('all complete so far', seen))
        r += sofar(lc, Not(lc.c.local['ALL']), seen)
        if flag is not None:
            fl = lc.st.ld(32, lc.c.a[flag])
            A_ = lc.c.local['ALL']
            r += [('flag value', And(fl >= 0, fl <= 1)), ('flag set', imp(fl != 0, seen)), ('flag clear', imp(fl == 0, Not(A_))), ('not begun unless all are complete', imp(Not(A_), lc.t == 0)), ('flag kept', fl == lc.entry.ld(32, lc.c.a[flag]))]
        return r

    def post(c):
        m = mm(c)
        A_ = c.local['ALL']
        i, x, o, f = sk('i'), sk('x'), sk('o'), sk('f')
        r = [('C07: returns success', c.ret == K('MPI_SUCCESS'))]
        if flag is not None:
            r.append(('C07: the flag says whether every request is complete', c.s1.ld(32, c.a[flag]) == If(A_, IV(1), IV(0))))
        inr = And(i >= 0, i < m.n)
        r += [('C06,C07: every request becomes null, if all are complete, and else none', imp(inr, m.R(i, c.s1) == If(A_, IV(0), m.R(i)))),
              ('C06,C07,C23: exactly the requests of the array are released, if all are complete, and else none', And(
                  *[c.s1.g[g][x] == And(c.s0.g[g][x], Not(And(A_, m.gone(x, m.n)))) for g in ('live', 'reqs')])),
              ('C07: other handles are unaffected', And(c.s1.g['comms'][x] == c.s0.g['comms'][x], c.s1.g['dts'][x] == c.s0.g['dts'][x])),
              ('C23: no other storage is released', imp(Or(o > ALLOCA_HI, o <= SLOT0), c.s1.size[o] == If(And(A_, m.gone(SLOT0 - o, m.n)), IV(-1), c.s0.size[o])))]
        if m.S is not None:
            for k in range(3):
                p = m.SZ * i + m.F[k][0]
                v = c.s1.mem[32][m.S.obj][m.S.off + p]
                r.append(('C06,C07,C24: status word %d of each request' % k, imp(And(inr, A_), v == m.word(m.R(i), k))))
        return r

    def regions(c):
        m = mm(c)
        A_ = c.local['ALL']

        def rg(o, f):
            r = And(A_, within(m.A, 4 * m.n, o, f))
            if m.S is not None:
                r = Or(r, And(A_, within(m.S, m.SZ * m.n, o, f)))
            if flag is not None:
                r = Or(r, within(c.a[flag], 4, o, f))
            return r
        return {32: rg}
    Unit(nm, Contract(nm, setup=setup, pre=pre, invs=invs, post=post, regions=regions, sizes=True, ghosts=('live', 'reqs', 'comms', 'dts'),
                      aborts=(lambda c: Not(c.local['ALL'])) if flag is None else None), ['C06', 'C07', 'C23', 'C24'],
         callees=CB, opts={'forksel': True}, title=nm + (' (statuses ignored)' if ignored else ''))


all_unit('MPI_Waitall', 0, 1, 2)
all_unit('MPI_Waitall', 0, 1, 2, ignored=True)
all_unit('MPI_Testall', 0, 1, 3, flag=2)
all_unit('MPI_Testall', 0, 1, 3, flag=2, ignored=True)


# ------------------------------------------------------------------ test-any, wait-any
def any_unit(nm, n, A, idx, S, flag=None, ignored=False):
    def mm(c):
        if 'm' not in c.local:
            m = c.local['m'] = M(c, c.a[n], c.a[A], None)
            m.extra = [(c.a[j], 1) for j in (idx, flag) if j is not None] + ([] if ignored else [(c.a[S] + o, 1) for o, _ in m.F])
        return c.local['m']

    def pre(c):
        m = mm(c)
        c.local['J'], d = defs_any(m)
        c.local['ACT'], d2 = defs_act(m)
        r = m.pre([(j, 4) for j in (idx, flag) if j is not None] + ([] if ignored else [(S, m.SZ)]))
        ps = [(c.a[j], sz) for j, sz in ((idx, 4), (flag, 4), (None if ignored else S, m.SZ)) if j is not None]
        r += [('distinct results', disjoint(p, a, q, b)) for i, (p, a) in enumerate(ps) for q, b in ps[:i]]
        r.append(('status %s' % ('ignored' if ignored else 'wanted'), c.a[S].eq(NULL) if ignored else Not(c.a[S].eq(NULL))))
        return r + [('definition of "first complete"', d), ('definition of "some active"', d2)]

    def invs(lc):
        m = mm(lc.c)
        c = lc.c
        i = z3.Int('i!m')
        r = m.handles(lc.st, IV(0), lc.entry) + m.array(lc, IV(0))
        r.append(('none complete so far', forall([i], imp(And(i >= 0, i < lc.t), Not(m.ac(i))), [m.R(i)])))
        if not ignored:
            r += [('status word %d as before' % k, lc.st.ld(32, c.a[S], o) == c.s0.ld(32, c.a[S], o)) for k, (o, _) in enumerate(m.F)]
        r.append(('index as before', lc.st.ld(32, c.a[idx]) == lc.entry.ld(32, c.a[idx])))
        ACT = c.local['ACT']
        idle = forall([i], imp(And(i >= 0, i < lc.t), Not(m.act(i))), [m.R(i)])
        return r + sofar(lc, ACT, idle)

    def post(c):
        m = mm(c)
        J, ACT = c.local['J'], c.local['ACT']
        i, x, o = sk('i'), sk('x'), sk('o')
        hit = J >= 0
        rel = lambda y: And(hit, y == m.R(J))
        r = [('C07: returns success', c.ret == K('MPI_SUCCESS')),
             ('C07: the position of the first complete request, or undefined', c.s1.ld(32, c.a[idx]) == If(hit, J, IV(K('MPI_UNDEFINED')))),
             ('C06,C07: exactly the completed request becomes null', imp(And(i >= 0, i < m.n), m.R(i, c.s1) == If(And(hit, i == J), IV(0), m.R(i)))),
             ('C06,C07,C23: exactly the completed request is released', And(*[c.s1.g[g][x] == And(c.s0.g[g][x], Not(rel(x))) for g in ('live', 'reqs')])),
             ('C07: other handles are unaffected', And(c.s1.g['comms'][x] == c.s0.g['comms'][x], c.s1.g['dts'][x] == c.s0.g['dts'][x])),
             ('C23: no other storage is released', imp(Or(o > ALLOCA_HI, o <= SLOT0), c.s1.size[o] == If(rel(SLOT0 - o), IV(-1), c.s0.size[o])))]
        if flag is not None:
            r.append(('C07: the flag says whether one is complete or none is active', c.s1.ld(32, c.a[flag]) == If(Or(hit, Not(ACT)), IV(1), IV(0))))
        if not ignored:
            for k in range(3):
                v = c.s1.ld(32, c.a[S], m.F[k][0])
                w = If(hit, m.word(m.R(J), k), m.word(IV(0), k))
                r.append(('C06,C07,C24: status word %d' % k, If(Or(hit, Not(ACT)), v == w, v == c.s0.ld(32, c.a[S], m.F[k][0]))))
        return r

    def regions(c):
        m = mm(c)
        J, ACT = c.local['J'], c.local['ACT']

        def rg(o, f):
            r = Or(And(J >= 0, within(m.A + 4 * J, 4, o, f)), within(c.a[idx], 4, o, f))
            if not ignored:
                r = Or(r, And(Or(J >= 0, Not(ACT)), within(c.a[S], m.SZ, o, f)))
            if flag is not None:
                r = Or(r, within(c.a[flag], 4, o, f))
            return r
        return {32: rg}
    Unit(nm, Contract(nm, setup=pghosts, pre=pre, invs=invs, post=post, regions=regions, sizes=True, ghosts=('live', 'reqs', 'comms', 'dts'),
                      aborts=(lambda c: And(c.local['J'] < 0, c.local['ACT'])) if flag is None else None), ['C06', 'C07', 'C23', 'C24'],
         callees=CB, opts={'forksel': True}, title=nm + (' (status ignored)' if ignored else ''))


any_unit('MPI_Testany', 0, 1, 2, 4, flag=3)
any_unit('MPI_Testany', 0, 1, 2, 4, flag=3, ignored=True)


# ------------------------------------------------------------------ test-some, wait-some
def some_unit(nm, n, A, oc, I_, S, abort=False, ignored=False):
    """CN(i): how many of the first i requests are active and complete"""
    def mm(c):
        if 'm' not in c.local:
            m = c.local['m'] = M(c, c.a[n], c.a[A], None)
            m.extra = [(c.a[oc], 1), (c.a[I_], 4 * c.a[n])] + ([] if ignored else [(c.a[S], m.SZ * c.a[n])])
        return c.local['m']

    def unfold(m, t):
        return [CN(IV(0)) == 0, imp(And(t >= 0, t < m.n), CN(t + 1) == CN(t) + If(m.ac(t), IV(1), IV(0)))]

    def pre(c):
        m = mm(c)
        c.local['ACT'], d2 = defs_act(m)
        ps = [(c.a[oc], IV(4)), (c.a[I_], 4 * m.n)] + ([] if ignored else [(c.a[S], m.SZ * m.n)])
        r = m.pre()
        r += [('result %d' % k, And(valid(c.s0, p, z), p.obj > 0, disjoint(p, z, m.A, 4 * m.n))) for k, (p, z) in enumerate(ps)]
        r += [('distinct results', disjoint(p, a, q, b)) for i, (p, a) in enumerate(ps) for q, b in ps[:i]]
        r.append(('statuses %s' % ('ignored' if ignored else 'wanted'), c.a[S].eq(NULL) if ignored else Not(c.a[S].eq(NULL))))
        r.append(('CN counts', CN(IV(0)) == 0))
        return r + [('definition of "some active"', d2)]

    def invs(lc):
        m = mm(lc.c)
        c, t, st = lc.c, lc.t, lc.st
        st.assume(*(unfold(m, t) + unfold(m, z3.simplify(t - 1))))
        i, f = z3.Int('i!m'), z3.Int('f!m')
        r = m.handles(st, t, lc.entry) + m.array(lc, t)
        cn = CN(t)
        r += [('counts are in range', And(cn >= 0, cn <= t)), ('the count so far', st.ld(32, c.a[oc]) == cn), ('the count as before', st.ld(32, c.a[oc]) == c.s0.ld(32, c.a[oc]))]
        r += [('%s: the count so far' % x, v == cn) for x, v in lc.phis.items() if x in lc.nonaff and z3.is_expr(v) and v.sort() == I]
        r += [('%s: the count left' % x, v == lc.init[x] - cn) for x, v in lc.phis.items() if x in lc.nonaff and z3.is_expr(v) and v.sort() == I and z3.is_expr(lc.init.get(x))]
        r.append(('counts grow', forall([i], imp(And(i >= 0, i < t), And(CN(i) >= 0, CN(i) <= cn, imp(m.ac(i), CN(i) < cn))), [CN(i)])))
        P = c.a[I_]
        ri = rowof(lc, P.obj)
        r.append(('positions so far', forall([i], imp(And(i >= 0, i < t, m.ac(i)), ri[P.off + 4 * CN(i)] == i), [CN(i)])))
        r.append(('no position beyond', forall([f], imp(And(f >= P.off + 4 * cn, f < P.off + 4 * m.n), ri[f] == c.s0.mem[32][P.obj][f]), [ri[f]])))
        ps = [P]
        if not ignored:
            Q = c.a[S]
            ps.append(Q)
            rs = rowof(lc, Q.obj)
            for k, (o, _) in enumerate(m.F):
                r.append(('statuses so far, word %d' % k, forall([i], imp(And(i >= 0, i < t, m.ac(i)), rs[Q.off + o + m.SZ * CN(i)] == m.word(m.R(i), k)), [CN(i)])))
            r.append(('no status beyond', forall([f], imp(And(f >= Q.off + m.SZ * cn, f < Q.off + m.SZ * m.n), rs[f] == c.s0.mem[32][Q.obj][f]), [rs[f]])))
        for p in ps:
            rp = rowof(lc, p.obj)
            r.append(('nothing else changes there', forall([f], imp(Not(m.inside(p.obj, f)), rp[f] == c.s0.mem[32][p.obj][f]), [rp[f]])))
        ACT = c.local['ACT']
        idle = forall([i], imp(And(i >= 0, i < t), Not(m.act(i))), [m.R(i)])
        return r + sofar(lc, ACT, idle)

    def post(c):
        m = mm(c)
        ACT = c.local['ACT']
        i, x, o = sk('i'), sk('x'), sk('o')
        N = CN(m.n)
        inr = And(i >= 0, i < m.n)
        r = [('C07: returns success', c.ret == K('MPI_SUCCESS')),
             ('C07: the number of complete requests, or undefined', c.s1.ld(32, c.a[oc]) == If(ACT, N, IV(K('MPI_UNDEFINED')))),
             ('C07: the counts are in order', imp(inr, And(CN(i) >= 0, CN(i) <= N, imp(m.ac(i), CN(i) < N)))),
             ('C06,C07: exactly the complete requests become null', imp(inr, m.R(i, c.s1) == If(m.ac(i), IV(0), m.R(i)))),
             ('C07: the position of every complete request, in increasing order', imp(And(inr, m.ac(i)), c.s1.ld(32, c.a[I_], 4 * CN(i)) == i)),
             ('C06,C07,C23: exactly the complete requests are released', And(*[c.s1.g[g][x] == And(c.s0.g[g][x], Not(m.gone(x, m.n))) for g in ('live', 'reqs')])),
             ('C07: other handles are unaffected', And(c.s1.g['comms'][x] == c.s0.g['comms'][x], c.s1.g['dts'][x] == c.s0.g['dts'][x])),
             ('C23: no other storage is released', imp(Or(o > ALLOCA_HI, o <= SLOT0), c.s1.size[o] == If(m.gone(SLOT0 - o, m.n), IV(-1), c.s0.size[o])))]
        if not ignored:
            for k in range(3):
                v = c.s1.ld(32, c.a[S], m.SZ * CN(i) + m.F[k][0])
                r.append(('C06,C07,C24: status word %d of every complete request, in the same order' % k, imp(And(inr, m.ac(i)), v == m.word(m.R(i), k))))
        return r

    def regions(c):
        m = mm(c)
        N = CN(m.n)

        def rg(o, f):
            r = Or(within(m.A, 4 * m.n, o, f), within(c.a[oc], 4, o, f), within(c.a[I_], 4 * N, o, f))
            return r if ignored else Or(r, within(c.a[S], m.SZ * N, o, f))
        return {32: rg}
    Unit(nm, Contract(nm, setup=pghosts, pre=pre, invs=invs, post=post, regions=regions, sizes=True, ghosts=('live', 'reqs', 'comms', 'dts'),
                      aborts=(lambda c: And(c.local['ACT'], CN(c.a[n]) == 0)) if abort else None), ['C06', 'C07', 'C23', 'C24'],
         callees=CB, opts={'forksel': True}, title=nm + (' (statuses ignored)' if ignored else ''))


any_unit('MPI_Waitany', 0, 1, 2, 3)
any_unit('MPI_Waitany', 0, 1, 2, 3, ignored=True)
for ig in (False, True):
    some_unit('MPI_Testsome', 0, 1, 2, 3, 4, ignored=ig)
    some_unit('MPI_Waitsome', 0, 1, 2, 3, 4, abort=True, ignored=ig)
