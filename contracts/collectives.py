"""collective.c (C14, C15, C05, C19): on one process every collective is the transfer of the process's own contribution."""
from .base import *
from .lib import *
from .consts import K
from .groups import ok
from .types import *
from .transfer import *

INPL = lambda: Ptr(0, K('MPI_IN_PLACE'))


def typeat(e, st, h):
    T = Ptr(fresh('T.o'), IV(0))
    st.assume(T.eq(dtptr(e.rootctx, e.rootctx.s0, h)))
    return T


def k_copy2(e, st, args, ins):
    """copy_data2 as its callers see it"""
    S, sc, sh, D, dc, dh = args
    c = e.rootctx
    for h in (sh, dh):
        e.oblige(st, isdt(c, st, h), 'call copy_data2 requires datatype handles', ins)
    Ts, Td = typeat(e, st, sh), typeat(e, st, dh)
    unchanged_types(e, st, [Ts, Td], ins)
    st.assume(*twofacts_(c, Ts, sc, Td, dc))
    x = Xfer(c, S, Ts, D, Td, mulF(dc, cnt(c, c.s0, Td)))
    have = mulF(cnt(c, c.s0, Ts), sc)
    e.oblige(st, And(sc >= 0, dc >= 0, have < 2 ** 31, x.n < 2 ** 31), 'call copy_data2 requires a representable number of elements', ins)
    bad = Or(Not(And(datatype(c, Ts), datatype(c, Td))), have < x.n)
    if e.feasible(st, bad):
        s2 = st.copy()
        s2.assume(bad)
        e.end_abort(s2, 'in copy_data2: uncommitted datatype or too few elements', ins)
    st.assume(Not(bad))
    if not e.feasible(st, z3.BoolVal(True)):
        return []
    e.oblige(st, x.buf(), 'call copy_data2 requires buffers that hold the elements', ins)
    x.st = st.copy()
    newbytes(e, st, D.obj)
    x.st.mem[32], x.st.mem[64] = c.s0.mem[32], c.s0.mem[64]
    st.assume(x.moved(st), x.kept(st))
    return [(st, IV(0))]


def twofacts_(c, Ts, sc, Td, dc):
    return mulfacts(cnt(c, c.s0, Ts), sc) + mulfacts(cnt(c, c.s0, Td), dc)


def k_mextent(e, st, args, ins):
    h, r = args
    c = e.rootctx
    e.oblige(st, isdt(c, st, h), 'call MPI_Type_extent requires a datatype handle', ins)
    e.oblige(st, valid(st, r, 8), 'call MPI_Type_extent requires a valid result cell', ins)
    T = typeat(e, st, h)
    unchanged_types(e, st, [T], ins)
    v = text(T.obj)
    st.assume(v >= -2 ** 62, v <= 2 ** 62)
    st.put(64, r, v)
    return [(st, IV(0))]


CC = {'copy_data2': cust('copy_data2', k_copy2, [8]), 'MPI_Type_extent': cust('MPI_Type_extent', k_mextent, [64])}


class Coll:
    """what a collective transfers; arr(p): element 0 of an argument array"""

    def __init__(q, c, f):
        q.c = c
        q.reads = []
        q.root = None
        a = c.a

        def at0(p):
            q.reads.append(p)
            return c.s0.ld(32, p)
        d = f(a, at0)
        q.S0, q.sc, q.sh, q.D0, q.dc, q.dh = [d[k] for k in ('S', 'sc', 'sh', 'D', 'dc', 'dh')]
        q.Ts, q.Td = [Ptr(z3.Const(n, I), IV(0)) for n in ('TS.o', 'TD.o')]
        by = lambda n, T: (mulF(d[n], text(T.obj)) if not d.get('bytes') else d[n]) if n in d else IV(0)
        q.sd, q.dd = by('so', q.Ts), by('do', q.Td)
        q.S, q.D = q.S0 + q.sd, q.D0 + q.dd
        q.here = d['inplace'].eq(INPL())
        q.bad = And(d['root'] != 0, d['root'] != K('MPI_ROOT')) if 'root' in d else z3.BoolVal(False)
        q.act = And(Not(q.here), d['root'] == 0) if 'root' in d else Not(q.here)
        q.x = Xfer(c, q.S, q.Ts, q.D, q.Td, mulF(q.dc, cnt(c, c.s0, q.Td)))
        q.have = mulF(cnt(c, c.s0, q.Ts), q.sc)
        q.refuse = Or(Not(And(datatype(c, q.Ts), datatype(c, q.Td))), q.have < q.x.n)
        q.d = d

    def pre(q):
        c = q.c
        r = [('readable argument arrays', And(*[And(valid(c.s0, p, 4), user(p.obj)) for p in q.reads]))] if q.reads else []
        r += [('datatype handles', And(isdt(c, c.s0, q.sh), isdt(c, c.s0, q.dh))), ('their datatypes', And(q.Ts.eq(dtptr(c, c.s0, q.sh)), q.Td.eq(dtptr(c, c.s0, q.dh))))]
        r += dtp(c, q.Ts, ' (source)') + dtp(c, q.Td, ' (destination)')
        r += [('the number of elements is representable', And(q.sc >= 0, q.dc >= 0, q.have < 2 ** 31, q.x.n < 2 ** 31)),
              bufptr(c, q.S, 'source'), bufptr(c, q.D, 'destination'), bufptr(c, q.S0, 'source argument'), bufptr(c, q.D0, 'destination argument'),
              ('moderate displacements', And(small(q.sd), small(q.dd))),
              ('the buffers hold the elements', imp(Not(q.refuse), q.x.buf()))]
        return [(l, imp(q.act, f)) for l, f in r]

    def facts(q):
        r = slen_axioms() + q.x.hyp(sI, sI) + twofacts_(q.c, q.Ts, q.sc, q.Td, q.dc)
        for n, T in (('so', q.Ts), ('do', q.Td)):
            if n in q.d:
                r += mulfacts(q.d[n], text(T.obj))
        return r

    def post(q):
        return [ok(q.c, 'C14,C15'), ('C15: no data is moved for a bad root', Or(Not(q.bad), q.here)),
                ('C19: not more elements than are contributed, and committed datatypes', imp(q.act, Not(q.refuse)))] + q.x.post(q.c.s1, 'C14,C05', q.act)


def coll(nm, f):
    Q = lambda c: xf(c, lambda c: Coll(c, f))

    def post(c):
        q = Q(c)
        q.c = c
        return q.post()
    Unit(nm, Contract(
        nm, setup=hsetup, pre=lambda c: Q(c).pre(), axioms=lambda c: Q(c).facts(),
        aborts=lambda c: Or(And(Q(c).bad, Not(Q(c).here)), And(Q(c).act, Q(c).refuse)), mayabort=lambda c: And(Q(c).bad, Q(c).here), abort_state=nodata,
        post=post, regions=lambda c: {8: lambda o, f_: And(Q(c).act, o == Q(c).D.obj)}, invs=lambda lc: Q(lc.c).x.invs(lc)),
        ['C14', 'C15', 'C05', 'C19'], callees=dict(HANDLES, **SL, **EXT, **CC))


def g(**k):
    return k


coll('MPI_Gather', lambda a, z: g(S=a[0], sc=a[1], sh=a[2], D=a[3], dc=a[4], dh=a[5], root=a[6], inplace=a[0]))
coll('MPI_Gatherv', lambda a, z: g(S=a[0], sc=a[1], sh=a[2], D=a[3], dc=z(a[4]), do=z(a[5]), dh=a[6], root=a[7], inplace=a[0]))
coll('MPI_Allgather', lambda a, z: g(S=a[0], sc=a[1], sh=a[2], D=a[3], dc=a[4], dh=a[5], inplace=a[0]))
coll('MPI_Allgatherv', lambda a, z: g(S=a[0], sc=a[1], sh=a[2], D=a[3], dc=z(a[4]), do=z(a[5]), dh=a[6], inplace=a[0]))
coll('MPI_Scatter', lambda a, z: g(S=a[0], sc=a[1], sh=a[2], D=a[3], dc=a[4], dh=a[5], root=a[6], inplace=a[3]))
coll('MPI_Scatterv', lambda a, z: g(S=a[0], sc=z(a[1]), so=z(a[2]), sh=a[3], D=a[4], dc=a[5], dh=a[6], root=a[7], inplace=a[4]))
coll('MPI_Reduce', lambda a, z: g(S=a[0], D=a[1], sc=a[2], dc=a[2], sh=a[3], dh=a[3], root=a[5], inplace=a[0]))
for nm in ('MPI_Allreduce', 'MPI_Scan'):
    coll(nm, lambda a, z: g(S=a[0], D=a[1], sc=a[2], dc=a[2], sh=a[3], dh=a[3], inplace=a[0]))
coll('MPI_Reduce_scatter', lambda a, z: g(S=a[0], D=a[1], sc=z(a[2]), dc=z(a[2]), sh=a[3], dh=a[3], inplace=a[0]))
coll('MPI_Alltoall', lambda a, z: g(S=a[0], sc=a[1], sh=a[2], D=a[3], dc=a[4], dh=a[5], inplace=a[0]))
coll('MPI_Alltoallv', lambda a, z: g(S=a[0], sc=z(a[1]), so=z(a[2]), sh=a[3], D=a[4], dc=z(a[5]), do=z(a[6]), dh=a[7], inplace=a[0]))
coll('MPI_Alltoallw', lambda a, z: g(S=a[0], sc=z(a[1]), so=z(a[2]), sh=z(a[3]), D=a[4], dc=z(a[5]), do=z(a[6]), dh=z(a[7]), inplace=a[0], bytes=True))

Unit('MPI_Barrier', Contract('MPI_Barrier', post=lambda c: [ok(c, 'C14')]), ['C14'])
badroot = lambda c: And(c.a[3] != 0, c.a[3] != K('MPI_ROOT'))
Unit('MPI_Bcast', Contract('MPI_Bcast', aborts=badroot, post=lambda c: [ok(c, 'C14'), ('C15: the root is acceptable', Not(badroot(c)))]), ['C14', 'C15'])
