"""comm.c, ic_merge.c, MPI_Cart_create (C04, C17, C18): communicators are handles that own two queues."""
from .base import *
from .lib import *
from .consts import K
from .groups import out, ok, arr, pos

ALLM = {**HANDLES, **LISTS}


def numcell(e):
    """the static counter of mpi_comm_new: the one mutable internal integer of its module"""
    fn = e.prog.find('mpi_comm_new')
    m = fn.mod if fn else e.root_mod
    ns = [n for n, g in m.globals.items() if g[3] and not g[2] and g[1] is not None and g[0].k == 'int']
    best = [n for n in ns if 'num' in n] or ns or ['mpi_comm_new.num']
    return e.globptr(best[0], m)


def csetup(c, st):
    ghosts(c, st)
    c.local['num'] = numcell(c.eng)
    c.local['os'], c.local['or'] = c.off('Comm', 'sendlist'), c.off('Comm', 'recvlist')


def SL(c, st, h):
    return st.ld('p', hdata(st, h), c.local['os'])


def RL(c, st, h):
    return st.ld('p', hdata(st, h), c.local['or'])


def numok(c):
    n = c.s0.ld(32, c.local['num'])
    return ('fewer than 2^31 communicators created so far', And(n >= 0, n < 2 ** 31 - 1))


def newcomm(c, h, tag='C17,C18,C04', when=True):
    """h is a fresh communicator with its own, empty queues"""
    s0, s1 = c.s0, c.s1
    S, R = SL(c, s1, h), RL(c, s1, h)
    x = fresh('x')
    when = z3.BoolVal(when) if isinstance(when, bool) else when
    P = lambda f: imp(when, f)
    return [
        (tag + ': the new communicator is not null and was not live', P(And(h != 0, h >= 1, Not(s0.g['live'][h])))),
        ('C17,C01: exactly the new handle became live', P(s1.g['live'][x] == Or(x == h, s0.g['live'][x]))),
        (tag + ': its queues are empty', P(And(S.off == 0, R.off == 0, s1.g['llen'][S.obj] == 0, s1.g['llen'][R.obj] == 0))),
        (tag + ': its queues are its own', P(And(S.obj != R.obj, S.obj >= s0.brk, R.obj >= s0.brk, S.obj < s1.brk, R.obj < s1.brk))),
        (tag + ': no other queue changed', P(imp(And(x != S.obj, x != R.obj), s1.g['llen'][x] == s0.g['llen'][x]))),
        ('C23: its storage is live', P(s1.size[slot(h)] == c.eng.sizeof('Req'))),
        (tag + ': no other object is released or resized', P(imp(And(x < s0.brk, x != slot(h), Or(x > ALLOCA_HI, x <= SLOT0)),
                                                               s1.size[x] == s0.size[x]))),
    ]


def nonew(c, when):
    x = fresh('x')
    return [('C17: nothing is created', imp(when, And(c.s1.g['live'][x] == c.s0.g['live'][x], c.s1.g['llen'][x] == c.s0.g['llen'][x])))]


def slotframe(c):
    """the data of handles that were not live"""
    p = lambda o, f: And(o < SLOT0, Not(c.s0.g['live'][SLOT0 - o]))
    return {m: p for m in MAPS}


CG = ('live', 'hinit', 'llen')


def creator(nm, res, null, extra=(), props=('C17',), aborts=None, pre=None, invs=None):
    def post(c):
        h = res(c)
        nl = null(c) if null else z3.BoolVal(False)
        r = newcomm(c, h, when=Not(nl))
        if null:
            r += [('C17: the null communicator exactly when there is no member', imp(nl, h == K('MPI_COMM_NULL')))] + nonew(c, nl)
        return r + [ok(c, 'C17,C18')]
    pre0 = lambda c: [numok(c)] + (pre(c) if pre else [])
    Unit(nm, Contract(nm, setup=csetup, pre=pre0, post=post, aborts=aborts, ghosts=CG, sizes=True, invs=invs,
                      cells=lambda c: [(32, c.local['num'])] + extra(c), regions=slotframe), list(props), callees=dict(ALLM, **COMM))


# ------------------------------------------------------------------ mpi_comm_new
def k_comm_new(e, st, args, ins):
    num = numcell(e)
    n = st.ld(32, num)
    e.oblige(st, And(n >= 0, n < 2 ** 31 - 1), 'call mpi_comm_new requires that fewer than 2^31 communicators were created', ins)
    tmp = fresh('newcomm')
    s2, hp, dp = st, None, None
    # allocate
    h = fresh('newh')
    st.assume(h >= 1, h < HMAX, Not(st.g['live'][h]), imp(Not(st.g['hinit']), h == 1))
    o = z3.simplify(slot(h))
    for mm in MAPS:
        st.mem[mm] = z3.Store(st.mem[mm], o, fresh('S%s' % mm, A1))
        if st.stores is not None:
            st.stores.append((mm, o, IV(0), None))
    st.size = z3.Store(st.size, o, IV(e.sizeof('Req')))
    st.g['live'] = z3.Store(st.g['live'], h, z3.BoolVal(True))
    st.g['hinit'] = z3.BoolVal(True)
    (st, S), = k_new(e, st, [], ins)
    (st, R), = k_new(e, st, [], ins)
    st.put('p', Ptr(o, 0), S, e.offset('Comm', 'sendlist')[0])
    st.put('p', Ptr(o, 0), R, e.offset('Comm', 'recvlist')[0])
    st.put(32, num, n + 1)
    return [(st, h)]


COMM = {'mpi_comm_new': cust('mpi_comm_new', k_comm_new, HEFF + LEFF + [8, 16, 32, 64, 'po', 'pf', 'f'])}

Unit('mpi_comm_new', Contract(
    'mpi_comm_new', setup=csetup, pre=lambda c: [numok(c)],
    post=lambda c: newcomm(c, c.ret) + [('the counter advances', c.s1.ld(32, c.local['num']) == c.s0.ld(32, c.local['num']) + 1)],
    ghosts=CG, sizes=True, cells=lambda c: [(32, c.local['num'])], regions=slotframe), ['C01', 'C04', 'C17', 'C18'], callees=ALLM)

o1 = lambda i: (lambda c: c.s1.ld(32, c.a[i]))
ce = lambda i: (lambda c: [(32, c.a[i])])
pr = lambda i: (lambda c: [out(c, i)])
NULLC = lambda: K('MPI_COMM_NULL')

creator('MPI_Comm_dup', o1(1), None, ce(1), ('C17', 'C04', 'C01'), pre=pr(1))
creator('MPI_Comm_create', o1(2), lambda c: Or(c.a[1] == K('MPI_GROUP_NULL'), c.a[1] == K('MPI_GROUP_EMPTY')), ce(2), ('C17', 'C04'), pre=pr(2))
creator('MPI_Comm_split', o1(3), lambda c: c.a[1] == K('MPI_UNDEFINED'), ce(3), ('C17', 'C04'), pre=pr(3))
creator('MPI_Intercomm_create', o1(5), lambda c: And(c.a[0] == NULLC(), c.a[2] == NULLC()), ce(5), ('C17', 'C04'), pre=pr(5))
creator('MPI_Intercomm_merge', o1(2), lambda c: c.a[0] == NULLC(), ce(2), ('C17', 'C04'), pre=pr(2))


def cart_bad(c):
    f = z3.Int('f!a')
    n, p = c.a[1], c.a[2]
    r = And(f >= p.off, f < p.off + 4 * n, (f - p.off) % 4 == 0, c.s0.mem[32][p.obj][f] > 1)
    return And(n > 0, z3.Exists([f], r, patterns=[c.s0.mem[32][p.obj][f]]))


def cart_invs(lc):
    c = lc.c
    n, p = c.a[1], c.a[2]
    f = z3.Int('f!i')
    res = []
    for lo, hi, nm in ((IV(0), lc.t, 'up'), (n - lc.t, n, 'down')):
        rng = And(f >= p.off + 4 * lo, f < p.off + 4 * hi, (f - p.off) % 4 == 0)
        d = c.s0.mem[32][p.obj][f]
        none = forall([f], imp(rng, d <= 1), [d])
        res.append(('dims so far at most 1 (%s)' % nm, none))
        res += [(l + ' (%s)' % nm, q) for l, q in sofar(lc, cart_bad(c), none)]
    return res


creator('MPI_Cart_create', o1(5), None, ce(5), ('C18',), aborts=cart_bad, invs=cart_invs,
        pre=lambda c: [out(c, 5), ('a nonnegative number of dimensions', c.a[1] >= 0), ('dims', valid(c.s0, c.a[2], 4 * pos(c.a[1]))), ('distinct', disjoint(c.a[5], 4, c.a[2], 4 * pos(c.a[1])))])


# ------------------------------------------------------------------ MPI_Comm_free
def livecomm(c, st, h):
    S, R = SL(c, st, h), RL(c, st, h)
    return And(h > 0, st.g['live'][h], islist(st, S), islist(st, R), S.obj != R.obj, S.obj > 0, R.obj > 0)


def free_post(c):
    h = c.s0.ld(32, c.a[0])
    S, R = SL(c, c.s0, h), RL(c, c.s0, h)
    x = fresh('x')
    return [
        ('C17: the variable becomes the null communicator', c.s1.ld(32, c.a[0]) == NULLC()),
        ('C01,C17,C23: exactly that handle is released', c.s1.g['live'][x] == And(x != h, c.s0.g['live'][x])),
        ('C17,C23: exactly its queues are released', c.s1.g['llen'][x] == If(Or(x == S.obj, x == R.obj), IV(-1), c.s0.g['llen'][x])),
        ('C23: exactly its storage is released', imp(Or(x > ALLOCA_HI, x <= SLOT0), c.s1.size[x] == If(x == slot(h), IV(-1), c.s0.size[x]))),
        ok(c, 'C17')]


Unit('MPI_Comm_free', Contract(
    'MPI_Comm_free', setup=csetup, pre=lambda c: [out(c, 0), ('a live communicator', livecomm(c, c.s0, c.s0.ld(32, c.a[0])))],
    cells=lambda c: [(32, c.a[0])], ghosts=('live', 'llen', 'comms', 'reqs', 'dts'), sizes=True, post=free_post),
    ['C01', 'C17', 'C23'], callees=ALLM)

for nm, v, what in (('MPI_Comm_size', 1, 'size is 1'), ('MPI_Comm_rank', 0, 'rank is 0')):
    Unit(nm, Contract(nm, pre=lambda c: [out(c, 1)], cells=lambda c: [(32, c.a[1])],
         post=lambda c, v=v, what=what: [('C17: ' + what, c.s1.ld(32, c.a[1]) == v), ok(c, 'C17')]), ['C17'])
