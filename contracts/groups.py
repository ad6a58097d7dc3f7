"""group.c (C16), cart.c (C18): pure functions over the caller's arrays."""
from .base import *
from .lib import *
from .consts import K


def out(c, i, n=4):
    return ('result %d is writable' % i, And(valid(c.s0, c.a[i], n), user(c.a[i].obj)))


def ok(c, tag):
    return ('%s: returns success' % tag, c.ret == K('MPI_SUCCESS'))


def isgroup(g):
    return Or(g == K('MPI_GROUP_NULL'), g == K('MPI_GROUP_EMPTY'), g == K('MPI_GROUP_ONE'))


def has0(g):
    """rank 0 is a member of the (non-null) group"""
    return g == K('MPI_GROUP_ONE')


def mk(b):
    return If(b, IV(K('MPI_GROUP_ONE')), IV(K('MPI_GROUP_EMPTY')))


GN = lambda: K('MPI_GROUP_NULL')


def binop(nm, f):
    def post(c):
        return [('C16: the result is the %s' % nm.split('_')[-1], c.s1.ld(32, c.a[2]) == mk(f(has0(c.a[0]), has0(c.a[1])))), ok(c, 'C16')]
    Unit(nm, Contract(nm, pre=lambda c: [('groups', And(isgroup(c.a[0]), isgroup(c.a[1]))), out(c, 2)],
                      cells=lambda c: [(32, c.a[2])],
                      aborts=lambda c: Or(c.a[0] == GN(), c.a[1] == GN()), post=post), ['C16'])


binop('MPI_Group_union', lambda a, b: Or(a, b))
binop('MPI_Group_intersection', lambda a, b: And(a, b))
binop('MPI_Group_difference', lambda a, b: And(a, Not(b)))


def incl(nm, elem, sz, only0):
    g = lambda c: c.a[0]
    n = lambda c: c.a[1]

    def bad(c):
        return And(g(c) != K('MPI_GROUP_EMPTY'), n(c) != 0, Not(And(n(c) == 1, only0(c))))
    Unit(nm, Contract(nm, pre=lambda c: [('group', isgroup(c.a[0])), ('list', And(n(c) >= 0, valid(c.s0, c.a[2], n(c) * sz))), out(c, 3)],
                      cells=lambda c: [(32, c.a[3])], aborts=lambda c: Or(g(c) == GN(), bad(c)),
                      post=lambda c: [('C16: the result holds rank 0 exactly when it is listed and in the group',
                                       c.s1.ld(32, c.a[3]) == mk(And(has0(g(c)), n(c) != 0))), ok(c, 'C16')]), ['C16'])


incl('MPI_Group_incl', 4, 4, lambda c: c.s0.ld(32, c.a[2]) == 0)
incl('MPI_Group_range_incl', 12, 12, lambda c: And(c.s0.ld(32, c.a[2]) == 0, c.s0.ld(32, c.a[2], 4) == 0))

Unit('MPI_Group_free', Contract('MPI_Group_free', pre=lambda c: [out(c, 0)], cells=lambda c: [(32, c.a[0])],
     post=lambda c: [('C16: the variable becomes the null group', c.s1.ld(32, c.a[0]) == GN()), ok(c, 'C16')]), ['C16'])

Unit('MPI_Comm_group', Contract('MPI_Comm_group', pre=lambda c: [out(c, 1)], cells=lambda c: [(32, c.a[1])],
     post=lambda c: [('C16,C17: the group of a communicator is the one-process group', c.s1.ld(32, c.a[1]) ==
                      If(c.a[0] == K('MPI_COMM_NULL'), IV(GN()), IV(K('MPI_GROUP_ONE')))), ok(c, 'C16,C17')]), ['C16', 'C17'])


# rank translation
def tr_bad(c, f):
    """offset f of the input array holds a rank other than 0"""
    g1, n, r1 = c.a[0], c.a[1], c.a[2]
    return And(f >= r1.off, f < r1.off + 4 * n, (f - r1.off) % 4 == 0, c.s0.mem[32][r1.obj][f] != 0)


def tr_aborts(c):
    g1, n, r1, g2, r2 = c.a
    f = z3.Int('f!a')
    some = z3.Exists([f], tr_bad(c, f), patterns=[c.s0.mem[32][r1.obj][f]])
    return Or(g1 == GN(), g2 == GN(), And(n > 0, g1 == K('MPI_GROUP_EMPTY')), And(n > 0, some))


def tr_val(c):
    return If(c.a[3] == K('MPI_GROUP_EMPTY'), IV(K('MPI_UNDEFINED')), IV(0))


def tr_post(c):
    g1, n, r1, g2, r2 = c.a
    k = sk()
    return [('C16: every rank is translated', imp(And(k >= 0, k < n), c.s1.ld(32, r2, 4 * k) == tr_val(c))), ok(c, 'C16')]


def tr_regions(c):
    g1, n, r1, g2, r2 = c.a
    return {32: lambda o, f: And(within(r2, 4 * n, o, f), (f - r2.off) % 4 == 0)}


def tr_invs(lc):
    c = lc.c
    g1, n, r1, g2, r2 = c.a
    f = z3.Int('f!i')
    res = []
    for lo, hi, nm in ((IV(0), lc.t, 'up'), (n - lc.t, n, 'down')):
        rng = And(f >= r1.off + 4 * lo, f < r1.off + 4 * hi, (f - r1.off) % 4 == 0)
        res.append(('ranks seen so far are 0 (%s)' % nm, forall([f], imp(rng, c.s0.mem[32][r1.obj][f] == 0), [c.s0.mem[32][r1.obj][f]])))
        rng2 = And(f >= r2.off + 4 * lo, f < r2.off + 4 * hi, (f - r2.off) % 4 == 0)
        cur = row(lc.st, 32, r2.obj)[f]
        res.append(('results so far (%s)' % nm, forall([f], cur == If(rng2, tr_val(c), c.s0.mem[32][r2.obj][f]), [cur])))
    return res


Unit('MPI_Group_translate_ranks', Contract(
    'MPI_Group_translate_ranks',
    pre=lambda c: [('groups', And(isgroup(c.a[0]), isgroup(c.a[3]))),
                   ('arrays', And(c.a[1] >= 0, valid(c.s0, c.a[2], 4 * c.a[1]), valid(c.s0, c.a[4], 4 * c.a[1]), user(c.a[4].obj),
                                  Or(c.a[2].obj != c.a[4].obj, c.a[2].off + 4 * c.a[1] <= c.a[4].off, c.a[4].off + 4 * c.a[1] <= c.a[2].off)))],
    aborts=tr_aborts, regions=tr_regions, invs=tr_invs, post=tr_post), ['C16'])

for nm in ('MPI_Group_f2c', 'MPI_Group_c2f', 'MPI_Comm_f2c', 'MPI_Comm_c2f', 'MPI_Request_f2c', 'MPI_Request_c2f', 'MPI_Op_f2c', 'MPI_Op_c2f'):
    Unit(nm, Contract(nm, post=lambda c: [('C22: the handle value is preserved', c.ret == c.a[0])]), ['C22'])


# ------------------------------------------------------------------ cart.c
def arr(c, i, n):
    return ('array %d' % i, And(valid(c.s0, c.a[i], 4 * n), user(c.a[i].obj)))


def fill(p, n):
    return lambda o, f: And(within(p, 4 * n, o, f), (f - p.off) % 4 == 0)


def pos(n):
    return If(n > 0, n, IV(0))


Unit('MPI_Cart_get', Contract(
    'MPI_Cart_get',
    pre=lambda c: [('a nonnegative number of dimensions', c.a[1] >= 0), arr(c, 2, pos(c.a[1])), arr(c, 4, pos(c.a[1])), ('distinct arrays', disjoint(c.a[2], 4 * pos(c.a[1]), c.a[4], 4 * pos(c.a[1])))],
    regions=lambda c: {32: lambda o, f: Or(fill(c.a[2], pos(c.a[1]))(o, f), fill(c.a[4], pos(c.a[1]))(o, f))},
    post=lambda c: (lambda k: [('C18: every dimension is 1', imp(And(k >= 0, k < c.a[1]), c.s1.ld(32, c.a[2], 4 * k) == 1)),
                               ('C18: every coordinate is 0', imp(And(k >= 0, k < c.a[1]), c.s1.ld(32, c.a[4], 4 * k) == 0)), ok(c, 'C18')])(sk()),
    invs=lambda lc: fill_invs(lc, [(2, 1, 1), (4, 1, 0)])), ['C18'])


def fill_invs(lc, specs):
    """array filled with a constant, in either direction"""
    c = lc.c
    res = []
    f = z3.Int('f!i')
    bo = {}
    for ai, ni, v in specs:
        p, n = c.a[ai], c.a[ni]
        for nm, lo, hi in (('up', IV(0), lc.t), ('down', n - lc.t, n)):
            rng = And(f >= p.off + 4 * lo, f < p.off + 4 * hi, (f - p.off) % 4 == 0)
            cur = row(lc.st, 32, p.obj)[f]
            res.append(('filled so far %d %s' % (ai, nm), forall([f], imp(rng, cur == v), [cur])))
            k = z3.Int('f!j')
    oth = And(*[Not(And(within(c.a[ai], 4 * c.a[ni], c.a[specs[0][0]].obj, f), (f - c.a[ai].off) % 4 == 0)) for ai, ni, v in specs])
    for ai, ni, v in specs:
        o = c.a[ai].obj
        oth = And(*[Not(And(within(c.a[aj], 4 * c.a[nj], o, f), (f - c.a[aj].off) % 4 == 0)) for aj, nj, _ in specs])
        cur = row(lc.st, 32, o)[f]
        res.append(('rest of array %d unchanged' % ai, forall([f], imp(oth, cur == c.s0.mem[32][o][f]), [cur])))
    return res


Unit('MPI_Cart_coords', Contract(
    'MPI_Cart_coords', pre=lambda c: [('a nonnegative number of dimensions', c.a[2] >= 0), arr(c, 3, pos(c.a[2]))], regions=lambda c: {32: fill(c.a[3], pos(c.a[2]))},
    aborts=lambda c: c.a[1] != 0,
    post=lambda c: (lambda k: [('C18: every coordinate is 0', imp(And(k >= 0, k < c.a[2]), c.s1.ld(32, c.a[3], 4 * k) == 0)), ok(c, 'C18')])(sk()),
    invs=lambda lc: fill_invs(lc, [(3, 2, 0)])), ['C18'])

Unit('MPI_Dims_create', Contract(
    'MPI_Dims_create', pre=lambda c: [('a nonnegative number of dimensions', c.a[1] >= 0), arr(c, 2, pos(c.a[1]))], regions=lambda c: {32: fill(c.a[2], pos(c.a[1]))},
    aborts=lambda c: c.a[0] > 1,
    post=lambda c: (lambda k: [('C18: every dimension is 1', imp(And(k >= 0, k < c.a[1]), c.s1.ld(32, c.a[2], 4 * k) == 1)), ok(c, 'C18')])(sk()),
    invs=lambda lc: fill_invs(lc, [(2, 1, 1)])), ['C18'])
