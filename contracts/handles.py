"""handles.c: the concrete handle table refines an allocator of distinct objects.

Ghost description of the table in a state:
   Bf(b)   object that holds block b (binv: its inverse)
   F[0..nf) the handles on the free list, F[nf-1] on top; fpos is its inverse
A handle h is live when 1 <= h < 256*nblocks and h is not on the free list.
"""
from .base import *

NB = 1024


class HS:
    """ghost view of the table"""

    def __init__(s, Bf, binv, F, fpos, nf):
        s.Bf, s.binv, s.F, s.fpos, s.nf = Bf, binv, F, fpos, nf

    def item(s, c, h):
        return Ptr(s.Bf(h / 256), c.local['isz'] * (h % 256))

    def free(s, h):
        return And(s.fpos(h) >= 0, s.fpos(h) < s.nf, s.F(s.fpos(h)) == h)


def lay(c):
    L = c.local
    L['isz'] = c.eng.sizeof('Handleitem')
    L['oh'] = c.off('Handleitem', 'handle')
    L['on'] = c.off('Handleitem', 'next')
    L['od'] = c.off('Handleitem', 'data')
    for g in ('blocks', 'nblocks', 'nextfree', 'need_to_init', 'block0'):
        L[g] = gp(c, g, 'handles')
    return L


def parts(c, st, H, nb, k, h, b):
    """the table invariant, for one free-list index k, one handle h, one block b"""
    L = c.local
    it = H.item(c, H.F(k))
    nx = H.item(c, H.F(k - 1))
    return [
        ('1 to 1024 blocks', And(nb >= 1, nb <= NB)),
        ('block 0 is the static block', H.Bf(0) == L['block0'].obj),
        ('block pointers', imp(And(b >= 0, b < nb), And(
            st.ld('p', L['blocks'] + 8 * b).eq(Ptr(H.Bf(b), 0)), st.size[H.Bf(b)] == L['isz'] * 256,
            Or(b == 0, H.Bf(b) > 0), H.binv(H.Bf(b)) == b))),
        ('every item knows its handle', imp(And(h >= 0, h < 256 * nb), st.ld(32, H.item(c, h), L['oh']) == h)),
        ('free list holds valid distinct nonzero handles', And(H.nf >= 0, imp(And(k >= 0, k < H.nf), And(
            H.F(k) >= 1, H.F(k) < 256 * nb, H.fpos(H.F(k)) == k)))),
        ('free list is linked', imp(And(k >= 0, k < H.nf),
            st.ld('p', it, L['on']).eq(pite(k == 0, NULL, nx)))),
        ('nextfree is its top', st.ld('p', L['nextfree']).eq(pite(H.nf == 0, NULL, H.item(c, H.F(H.nf - 1))))),
    ]


def distinct_globals(c):
    return And()


def setup(c, st):
    L = lay(c)
    # assume the invariant on entry, if initialised
    Bf = z3.Function('Bf0', I, I)
    binv = z3.Function('binv0', I, I)
    F = z3.Function('F0', I, I)
    fpos = z3.Function('fpos0', I, I)
    nf = z3.Int('nf0')
    H = L['H0'] = HS(Bf, binv, F, fpos, nf)
    init = L['init0'] = st.ld(32, L['need_to_init']) == 0
    nb = L['nb0'] = st.ld(32, L['nblocks'])
    k, h, b = z3.Ints('k!q h!q b!q')
    P = dict(parts(c, st, H, nb, k, h, b))
    st.assume(imp(init, P['1 to 1024 blocks']), imp(init, P['block 0 is the static block']), nf >= 0)
    st.assume(forall([b], imp(init, P['block pointers']), [Bf(b)]))
    st.assume(forall([h], imp(init, And(P['every item knows its handle'])), [Bf(h / 256)]) if False else z3.BoolVal(True))
    hb = z3.Function('hb', I, I)
    L['hb'] = hb
    st.assume(forall([h], imp(init, P['every item knows its handle']), [hb(h)]))
    st.assume(forall([k], imp(init, And(P['free list holds valid distinct nonzero handles'], P['free list is linked'],
                                        hb(F(k)) == 0)), [F(k)]))
    st.assume(imp(init, P['nextfree is its top']))
    st.assume(ttF(F(nf - 1)), ttF(hb(F(nf - 1))), ttF(Bf(nb)))
    # the uninitialised table owns only the static block
    st.assume(And(st.size[L['block0'].obj] == L['isz'] * 256))


def trig(c, *hs):
    """mention handles so that the quantified entry facts are instantiated"""
    L = c.local
    H = L['H0']
    return And(*[And(ttF(H.Bf(h / 256)), ttF(L['hb'](h)), ttF(H.fpos(h))) for h in hs])


def inst(c, st, *hs):
    """explicit instances of the entry invariant for handles hs"""
    L = c.local
    H = L['H0']
    out = []
    for h in hs:
        for lab, f in parts(c, c.s0, H, L['nb0'], H.fpos(h), h, h / 256):
            out.append(imp(L['init0'], f))
    return And(*out)


def livein(c, h):
    L = c.local
    return And(L['init0'], h >= 1, h < 256 * L['nb0'], Not(L['H0'].free(h)))


def disjointness(c, *objs):
    """the caller's objects are not parts of the table"""
    L = c.local
    H = L['H0']
    b = z3.Int('b!q')
    fs = []
    for o in objs:
        fs.append(Or(o > 0, o <= ALLOCA_HI))
        fs.append(forall([b], imp(And(L['init0'], b >= 0, b < L['nb0']), H.Bf(b) != o), [H.Bf(b)]))
    return And(*fs)


def after(c, mode):
    """ghost table after the call; mode: 'alloc', 'same', ..."""
    L = c.local
    H = L['H0']
    nb1 = c.s1.ld(32, L['nblocks'])
    newb = c.s1.ld('p', L['blocks'] + 8 * L['nb0']).obj
    init = L['init0']
    return H, nb1, newb


def H_init(c, skip):
    """table right after initialisation with `skip` handles popped from the free list"""
    L = c.local
    return HS(lambda b: If(b == 0, L['block0'].obj, IV(0)), lambda o: If(o == L['block0'].obj, IV(0), IV(-1)),
              lambda k: 255 - k, lambda h: 255 - h, IV(255 - skip))


def hite(cnd, A, B):
    return HS(lambda b: If(cnd, A.Bf(b), B.Bf(b)), lambda o: If(cnd, A.binv(o), B.binv(o)),
              lambda k: If(cnd, A.F(k), B.F(k)), lambda h: If(cnd, A.fpos(h), B.fpos(h)), If(cnd, A.nf, B.nf))


def checkinv(c, st, H1, tag='C01'):
    L = c.local
    k, h, b = sk('k'), sk('h'), sk('b')
    nb1 = st.ld(32, L['nblocks'])
    H0 = L['H0']
    g = And(inst(c, st, h, H0.F(k), H0.F(k - 1), 256 * b), trig(c, h, H0.F(k), H0.F(k - 1)), ttF(H0.Bf(b)))
    out = []
    for lab, f in parts(c, st, H1, nb1, k, h, b):
        out.append(('C01,C23: table invariant: ' + lab, imp(g, f)))
    return out


def livein1(c, st, H1, h):
    nb1 = st.ld(32, c.local['nblocks'])
    return And(h >= 1, h < 256 * nb1, Not(H1.free(h)))


def data_untouched(c):
    """contents of every live handle's data, in every memory map"""
    L = c.local
    h, f = sk('h'), sk('f')
    it = L['H0'].item(c, h)
    g = And(livein(c, h), f >= 0, f < L['isz'] - L['od'], inst(c, c.s0, h), trig(c, h))
    out = []
    for m in MAPS:
        if not c.s1.mem[m].eq(c.s0.mem[m]):
            p = it + (L['od'] + f)
            out.append(('C01,C23: data of live handles untouched (%s)' % m, imp(g, c.s1.mem[m][p.obj][p.off] == c.s0.mem[m][p.obj][p.off])))
    return out


# ------------------------------------------------------------------ mpi_alloc_handle(int *handle, void **data)
def alloc_pre(c):
    hp, dp = c.a
    return [('handle cell', And(valid(c.s0, hp, 4))), ('data cell', valid(c.s0, dp, 8)),
            ('cells are the caller\'s', disjointness(c, hp.obj, dp.obj)),
            ('cells are distinct', hp.obj != dp.obj)]


def alloc_H1(c):
    L = c.local
    H, nb0 = L['H0'], L['nb0']
    nb1 = c.s1.ld(32, L['nblocks'])
    newb = c.s1.ld('p', L['blocks'] + 8 * nb0).obj
    pop = HS(H.Bf, H.binv, H.F, H.fpos, H.nf - 1)
    grow = HS(lambda b: If(b == nb0, newb, H.Bf(b)), lambda o: If(o == newb, nb0, H.binv(o)),
              lambda k: nb0 * 256 + 255 - k, lambda h: nb0 * 256 + 255 - h, IV(255))
    return hite(L['init0'], hite(H.nf > 0, pop, grow), H_init(c, 1))


def alloc_post(c):
    L = c.local
    hp, dp = c.a
    H1 = alloc_H1(c)
    h = c.s1.ld(32, hp)
    d = c.s1.ld('p', dp)
    x = sk('x')
    tr = And(inst(c, c.s0, h, x), trig(c, h, x))
    return [
        ('C01: the new handle is not null', h != 0),
        ('C01: the new handle was not live', imp(inst(c, c.s0, h), Not(livein(c, h)))),
        ('C01: exactly the new handle became live', imp(tr, livein1(c, c.s1, H1, x) == Or(x == h, livein(c, x)))),
        ('C01: its data pointer is the handle\'s item', d.eq(H1.item(c, h) + L['od'])),
        ('C01: live handles keep their items', imp(And(livein(c, x), inst(c, c.s0, x)),
            And(H1.item(c, x).eq(L['H0'].item(c, x))))),
        ('C01,C20: the first handle after initialisation is 1', imp(Not(L['init0']), h == 1)),
        ('initialised', c.s1.ld(32, L['need_to_init']) == 0),
    ] + checkinv(c, c.s1, H1) + data_untouched(c)


def alloc_regions(c):
    L = c.local
    H = L['H0']

    def items(off, n):
        def r(o, f):
            return Or(And(L['init0'], H.nf > 0, o == H.item(c, H.F(H.nf - 1)).obj, f == H.item(c, H.F(H.nf - 1)).off + off),
                      And(Not(L['init0']), o == L['block0'].obj, f % L['isz'] == off))
        return r
    po = lambda o, f: Or(items(L['on'], 8)(o, f), And(o == L['blocks'].obj))
    return {32: items(L['oh'], 4), 'po': po, 'pf': po}


def alloc_cells(c):
    L = c.local
    return [(32, c.a[0]), ('p', c.a[1]), (32, L['nblocks']), ('p', L['nextfree']), (32, L['need_to_init'])]


alloc = Contract('mpi_alloc_handle', setup=setup, pre=alloc_pre, post=alloc_post, regions=alloc_regions, cells=alloc_cells,
                 sizes=True, aborts=lambda c: And(c.local['init0'], c.local['H0'].nf == 0, c.local['nb0'] == NB),
                 )
Unit('mpi_alloc_handle', alloc, ['C01', 'C20', 'C23'])


# ------------------------------------------------------------------ void *mpi_handle_to_ptr(int handle)
def h2p_pre(c):
    return [('null or live handle', Or(c.a[0] == 0, And(inst(c, c.s0, c.a[0]), trig(c, c.a[0]), livein(c, c.a[0]))))]


def initcells(c):
    L = c.local
    return [(32, L['nblocks']), ('p', L['nextfree']), (32, L['need_to_init'])]


def init_regions(c):
    L = c.local
    bad = lambda o, f: And(Not(L['init0']), Or(o == L['block0'].obj, o == L['blocks'].obj))
    it = lambda off: (lambda o, f: And(Not(L['init0']), Or(And(o == L['block0'].obj, f % L['isz'] == off), o == L['blocks'].obj)))
    return {32: it(L['oh']), 'po': it(L['on']), 'pf': it(L['on'])}


def same_H(c):
    L = c.local
    return hite(L['init0'], L['H0'], H_init(c, 0 + 0)) if False else hite(L['init0'], L['H0'], H_init(c, 0))


h2p = Contract('mpi_handle_to_ptr', setup=setup, pre=h2p_pre, cells=initcells, regions=init_regions,
               post=lambda c: [
                   ('C01: null handle gives the null pointer', imp(c.a[0] == 0, c.ret.eq(NULL))),
                   ('C01: a live handle gives its own item', imp(c.a[0] != 0, c.ret.eq(c.local['H0'].item(c, c.a[0]) + c.local['od']))),
               ] + checkinv(c, c.s1, same_H(c)) + data_untouched(c) + same_live(c, lambda x: livein(c, x)))


def same_live(c, liveafter, H1=None):
    x = sk('x')
    H1 = H1 or same_H(c)
    tr = And(inst(c, c.s0, x, *([c.a[0]] if c.a else [])), trig(c, x, *([c.a[0]] if c.a else [])))
    return [('C01,C23: exactly the expected handles are live afterwards', imp(tr, livein1(c, c.s1, H1, x) == liveafter(x)))]


Unit('mpi_handle_to_ptr', h2p, ['C01', 'C23'])


# ------------------------------------------------------------------ void mpi_free_handle(int handle)
def free_H1(c):
    L = c.local
    H = L['H0']
    h = c.a[0]
    push = HS(H.Bf, H.binv, lambda k: If(k == H.nf, h, H.F(k)), lambda x: If(x == h, H.nf, H.fpos(x)), H.nf + 1)
    return hite(h == 0, H, push)


freeh = Contract('mpi_free_handle', setup=setup, pre=h2p_pre,
                 cells=lambda c: [('p', c.local['nextfree'])],
                 regions=lambda c: (lambda it: {m: (lambda o, f: And(c.a[0] != 0, o == it.obj, f == it.off + c.local['on']))
                                                for m in ('po', 'pf')})(c.local['H0'].item(c, c.a[0])),
                 post=lambda c: [(l, imp(c.local['init0'], f)) for l, f in checkinv(c, c.s1, free_H1(c))] + data_untouched(c)
                 + [(l, imp(c.local['init0'], f)) for l, f in
                    same_live(c, lambda x: And(livein(c, x), x != c.a[0]), free_H1(c))]
                 + [('C01: releasing the null handle does nothing', imp(c.a[0] == 0, And(*[c.s1.mem[m] == c.s0.mem[m] for m in MAPS])))])
Unit('mpi_free_handle', freeh, ['C01', 'C23'])


# ------------------------------------------------------------------ void mpi_destroy_handles(void)
def destroy_invs(lc):
    """every block before the current one has been released, no other object has"""
    c = lc.c
    L = c.local
    H = L['H0']
    out = [('trigger', And(ttF(H.Bf(lc.t + 1)), ttF(H.Bf(lc.t))))]
    o = z3.Int('o!d')
    nb = L['nb0']
    for i, nm in ((lc.t + 1, 't+1'), (lc.t, 't')):
        out.append(('blocks below %s released' % nm, forall([o],
            lc.st.size[o] == If(And(H.binv(o) >= 1, H.binv(o) < i, H.binv(o) < nb, H.Bf(H.binv(o)) == o), IV(-1), lc.entry.size[o]),
            [lc.st.size[o]])))
    i = nb - lc.t
    out.append(('trigger from the end', And(ttF(H.Bf(i)), ttF(H.Bf(z3.simplify(i - 1))))))
    out.append(('blocks from the end released', forall([o],
        lc.st.size[o] == If(And(H.binv(o) >= 1, H.binv(o) >= i, H.binv(o) < nb, H.Bf(H.binv(o)) == o), IV(-1), lc.entry.size[o]), [lc.st.size[o]])))
    out.append(('t+1<=nblocks', Or(lc.t + 1 <= nb, lc.t == 0)))
    for m in ('po', 'pf', 32):
        out.append(('table unchanged %s' % m, lc.st.mem[m] == lc.entry.mem[m]))
    return out


def destroy_post(c):
    L = c.local
    o = sk('o')
    H = L['H0']
    b = H.binv(o)
    isblk = And(L['init0'], b >= 1, b < L['nb0'], H.Bf(b) == o)
    return [
        ('C01,C20: the table is uninitialised again', c.s1.ld(32, L['need_to_init']) != 0),
        ('C23: every allocated block is released exactly once and nothing else is', imp(ttF(H.Bf(b)),
            c.s1.size[o] == If(isblk, IV(-1), c.s0.size[o]))),
    ]


destroy = Contract('mpi_destroy_handles', setup=setup, invs=destroy_invs, sizes=True, post=destroy_post,
                   cells=lambda c: [(32, c.local['need_to_init'])])
Unit('mpi_destroy_handles', destroy, ['C01', 'C20', 'C23'])
