"""Contracts of the library's own layers as their callers see them: handles, queues, datatypes.

Ghost state:
  live   set of live handles            hinit  table initialised
  llen   list -> length (-1: no list)   lN     list -> index -> node
  lpos   node -> index                  lown   node -> list (0: none)
  ndo/ndf node -> data pointer
  comms / reqs / dts  sets of handles that denote communicators / requests / datatypes
"""
from .base import *
from vc.engine import St

BA = z3.ArraySort(I, z3.BoolSort())
GH = {'live': BA, 'hinit': z3.BoolSort(), 'llen': A1, 'lN': A2, 'lpos': A1, 'lown': A1, 'ndo': A1, 'ndf': A1,
      'comms': BA, 'reqs': BA, 'dts': BA}
HMAX = 1024 * 256
PRE_LO = -47


def ghosts(c, st, names=None):
    for g, s in GH.items():
        if names is None or g in names:
            st.g[g] = z3.Const('%s_0' % g, s)


def hdata(st, h):
    return Ptr(slot(h), 0)


# ------------------------------------------------------------------ handles
def k_alloc(e, st, args, ins):
    hp, dp = args
    e.oblige(st, valid(st, hp, 4), 'call mpi_alloc_handle requires a valid handle cell', ins)
    e.oblige(st, valid(st, dp, 8), 'call mpi_alloc_handle requires a valid data cell', ins)
    e.oblige(st, disjoint(hp, 4, dp, 8), 'call mpi_alloc_handle requires distinct cells', ins)
    h = fresh('newh')
    st.assume(h >= 1, h < HMAX, Not(st.g['live'][h]), imp(Not(st.g['hinit']), h == 1))
    o = z3.simplify(slot(h))
    rows = {}
    for m in MAPS:
        a = rows[m] = fresh('S%s' % m, A1)
        st.mem[m] = z3.Store(st.mem[m], o, a)
        if st.stores is not None:
            st.stores.append((m, o, IV(0), None))
    st.size = z3.Store(st.size, o, IV(e.sizeof('Req')))
    st.g['live'] = z3.Store(st.g['live'], h, z3.BoolVal(True))
    st.g['hinit'] = z3.BoolVal(True)
    st.put(32, hp, h)
    st.put('p', dp, Ptr(o, 0))
    st.trace.append(('alloc', h, rows))
    return [(st, None)]


def k_h2p(e, st, args, ins):
    h = args[0]
    e.oblige(st, Or(h == 0, And(h > 0, st.g['live'][h])), 'call mpi_handle_to_ptr requires a null or live handle', ins)
    hs = z3.simplify(h)
    if z3.is_int_value(hs) and hs.as_long() == 0:
        return [(st, NULL)]
    e.assume_live(st, h)
    return [(st, pite(h == 0, NULL, Ptr(slot(h), 0)) if e.feasible(st, h == 0) else Ptr(slot(h), 0))]


def k_free(e, st, args, ins):
    h = args[0]
    e.oblige(st, Or(h == 0, And(h > 0, st.g['live'][h])), 'call mpi_free_handle requires a null or live handle', ins)
    if e.feasible(st, h == 0):
        if not e.feasible(st, h != 0):
            return [(st, None)]
        z = h == 0
        st.size = If(z, st.size, z3.Store(st.size, slot(h), IV(-1)))
        st.g['live'] = If(z, st.g['live'], z3.Store(st.g['live'], h, z3.BoolVal(False)))
        for g in ('reqs', 'comms', 'dts'):
            if g in st.g:
                st.g[g] = If(z, st.g[g], z3.Store(st.g[g], h, z3.BoolVal(False)))
        return [(st, None)]
    st.size = z3.Store(st.size, slot(h), IV(-1))
    st.g['live'] = z3.Store(st.g['live'], h, z3.BoolVal(False))
    for g in ('reqs', 'comms', 'dts'):
        if g in st.g:
            st.g[g] = z3.Store(st.g[g], h, z3.BoolVal(False))
    return [(st, None)]


def _assume_live(e, st, h):
    # the data of a live handle is storage of its own
    st.assume(imp(And(h > 0, st.g['live'][h]), st.size[slot(h)] == e.sizeof('Req')))


Engine.assume_live = _assume_live


def cust(name, f, eff=()):
    return Contract(name, custom=f, effects=tuple(eff))


HEFF = ['size', ('g', 'live'), ('g', 'hinit'), ('g', 'reqs'), ('g', 'comms'), ('g', 'dts')]
HANDLES = {
    'mpi_alloc_handle': cust('mpi_alloc_handle', k_alloc, HEFF + [8, 16, 32, 64, 'po', 'pf', 'f']),
    'mpi_handle_to_ptr': cust('mpi_handle_to_ptr', k_h2p),
    'mpi_free_handle': cust('mpi_free_handle', k_free, HEFF),
}


# ------------------------------------------------------------------ queues
def islist(st, p):
    return And(p.off == 0, st.g['llen'][p.obj] >= 0)


def k_append(e, st, args, ins):
    l, d = args
    e.oblige(st, islist(st, l), 'call AP_list_append requires a live list', ins)
    g = st.g
    n = st.brk
    st.brk = z3.simplify(n + 1)
    st.newobjs.append(n)
    ln = g['llen'][l.obj]
    g['lN'] = z3.Store(g['lN'], l.obj, z3.Store(g['lN'][l.obj], ln, n))
    g['llen'] = z3.Store(g['llen'], l.obj, ln + 1)
    g['lpos'] = z3.Store(g['lpos'], n, ln)
    g['lown'] = z3.Store(g['lown'], n, l.obj)
    g['ndo'] = z3.Store(g['ndo'], n, d.obj)
    g['ndf'] = z3.Store(g['ndf'], n, d.off)
    return [(st, Ptr(n, 0))]


def innode(st, p):
    g = st.g
    l = g['lown'][p.obj]
    return And(p.off == 0, p.obj != 0, l != 0, g['llen'][l] >= 0, g['lpos'][p.obj] >= 0, g['lpos'][p.obj] < g['llen'][l],
               g['lN'][l][g['lpos'][p.obj]] == p.obj)


DELROW = z3.Function('DELROW', A1, I, A1)             # a sequence without its j-th element
DELPOS = z3.Function('DELPOS', A1, A1, I, I, A1)      # positions after that


def k_delete(e, st, args, ins):
    l, it = args
    g = st.g
    e.oblige(st, And(islist(st, l), innode(st, it), g['lown'][it.obj] == l.obj), 'call AP_list_delete_item requires an element of that list', ins)
    j = g['lpos'][it.obj]
    k = z3.Int('k!q')
    old = g['lN'][l.obj]
    row = DELROW(old, j)
    st.assume(forall([k], row[k] == If(k < j, old[k], old[k + 1]), [row[k]]))
    pos = DELPOS(g['lown'], g['lpos'], l.obj, j)
    st.assume(forall([k], pos[k] == If(And(g['lown'][k] == l.obj, g['lpos'][k] > j), g['lpos'][k] - 1, g['lpos'][k]), [pos[k]]))
    g['lN'] = z3.Store(g['lN'], l.obj, row)
    g['lpos'] = pos
    g['llen'] = z3.Store(g['llen'], l.obj, g['llen'][l.obj] - 1)
    g['lown'] = z3.Store(g['lown'], it.obj, IV(0))
    return [(st, None)]


def k_data(e, st, args, ins):
    it = args[0]
    e.oblige(st, innode(st, it), 'call AP_listitem_data requires an element of a list', ins)
    return [(st, Ptr(st.g['ndo'][it.obj], st.g['ndf'][it.obj]))]


def k_size(e, st, args, ins):
    e.oblige(st, islist(st, args[0]), 'call AP_list_size requires a live list', ins)
    st.assume(st.g['llen'][args[0].obj] < 2 ** 31)
    return [(st, st.g['llen'][args[0].obj])]


def k_new(e, st, args, ins):
    n = st.brk
    b = fresh('brk')
    st.assume(b == n + 1)
    st.brk = b
    st.newobjs.append(n)
    st.g['llen'] = z3.Store(st.g['llen'], n, IV(0))
    return [(st, Ptr(n, 0))]


def k_lfree(e, st, args, ins):
    l = args[0]
    e.oblige(st, islist(st, l), 'call AP_list_free requires a live list', ins)
    st.g['llen'] = z3.Store(st.g['llen'], l.obj, IV(-1))
    return [(st, None)]


def k_headitem(e, st, args, ins):
    l = args[0]
    e.oblige(st, islist(st, l), 'call AP_list_head_item requires a live list', ins)
    return [(st, pite(st.g['llen'][l.obj] > 0, Ptr(st.g['lN'][l.obj][0], 0), NULL))]


def k_nextitem(e, st, args, ins):
    it = args[0]
    g = st.g
    e.oblige(st, innode(st, it), 'call AP_listitem_next requires an element of a list', ins)
    l, j = g['lown'][it.obj], g['lpos'][it.obj]
    return [(st, pite(j + 1 < g['llen'][l], Ptr(g['lN'][l][j + 1], 0), NULL))]


def k_search(e, st, args, ins):
    """first element that satisfies the function passed in, obtained by executing that function on an arbitrary element"""
    l, fp, x = args
    g = st.g
    e.oblige(st, islist(st, l), 'call AP_list_search_func requires a live list', ins)
    o = z3.simplify(fp.obj)
    if not (z3.is_int_value(o) and o.as_long() in e.gname and e.gname[o.as_long()][0] == 'fn'):
        raise Unsupported('search with an unknown function')
    _, name, mod = e.gname[o.as_long()]
    fn = e.prog.find(name, mod)
    k = fresh('el')
    nd = g['lN'][l.obj][k]
    d = Ptr(g['ndo'][nd], g['ndf'][nd])
    s = st.copy()
    s.stores = None
    s.assume(k >= 0, k < g['llen'][l.obj])
    h = e.root.__dict__.get('element_facts')
    if h:
        s.assume(*h(e, s, l, k))
    n0 = len(s.pc)
    mem0 = dict(s.mem)
    outs = e.inline(s, fn, [d, x], ins)
    e.inlined.add(name)
    ds = []
    for s2, r in outs:
        for m in MAPS:
            if not s2.mem[m].eq(mem0[m]):
                e.oblige(s2, z3.BoolVal(False), 'the search predicate has no side effects', ins)
        ds.append(And(*(s2.pc[n0:] + [r != 0])))
    P = Or(*ds) if ds else z3.BoolVal(False)
    pred = lambda j: z3.substitute(P, (k, j if z3.is_expr(j) else IV(j)))
    res = []
    m = z3.Int('m!q')
    pat = [g['lN'][l.obj][m]]
    sf = st.copy()
    kk = fresh('found')
    sf.assume(kk >= 0, kk < g['llen'][l.obj], pred(kk), ttF(kk))
    sf.assume(forall([m], imp(And(m >= 0, m < kk), Not(pred(m))), pat))
    if e.feasible(sf, z3.BoolVal(True)):
        sf.trace.append(('first', l.obj, kk))
        res.append((sf, Ptr(g['lN'][l.obj][kk], 0)))
    sn = st
    sn.assume(forall([m], imp(And(m >= 0, m < g['llen'][l.obj]), Not(pred(m))), pat))
    if e.feasible(sn, z3.BoolVal(True)):
        sn.trace.append(('first', l.obj, None))
        res.append((sn, NULL))
    return res


LEFF = [('g', x) for x in ('llen', 'lN', 'lpos', 'lown', 'ndo', 'ndf')] + ['size']
LISTS = {
    'AP_list_append': cust('AP_list_append', k_append, LEFF),
    'AP_list_delete_item': cust('AP_list_delete_item', k_delete, LEFF),
    'AP_listitem_data': cust('AP_listitem_data', k_data),
    'AP_list_size': cust('AP_list_size', k_size),
    'AP_list_new': cust('AP_list_new', k_new, LEFF),
    'AP_list_free': cust('AP_list_free', k_lfree, LEFF),
    'AP_list_head_item': cust('AP_list_head_item', k_headitem),
    'AP_listitem_next': cust('AP_listitem_next', k_nextitem),
    'AP_list_search_func': cust('AP_list_search_func', k_search),
}


def roles(lc, ints=(), ptrs=()):
    """candidate invariants (each kept only if inductive): a loop variable without a constant step holds one of these values"""
    r = []
    for x in lc.nonaff:
        v = lc.phis.get(x)
        if isinstance(v, Ptr):
            r += [('%s: %s' % (x, n), And(v.obj == q.obj, v.off == q.off)) for n, q in ptrs]
        elif z3.is_expr(v) and v.sort() == I:
            r += [('%s: %s' % (x, n), v == q) for n, q in ints]
    return r


def sofar(lc, yes, none):
    """variables of a loop that say whether an element with some property (say, an active request) was met: flags of either sense,
    counts of elements with or without it.  yes: there is such an element; none: none so far.  Each is kept only if inductive."""
    r, t = [], lc.t
    for x, v in lc.phis.items():
        v0 = lc.init.get(x)
        if x in lc.nonaff and z3.is_expr(v) and v.sort() == I and z3.is_expr(v0):
            r += [('%s: 0 or 1' % x, And(v >= 0, v <= 1)), ('%s: a count' % x, And(v >= v0, v - v0 <= t)), ('%s: a position' % x, And(v >= -1, v < t)),
                  ('%s: an active request' % x, imp(v != v0, yes)), ('%s: no active request' % x, imp(v == v0, none)),
                  ('%s: all null' % x, imp(v - v0 == t, none)), ('%s: not all null' % x, imp(v - v0 != t, yes))]
    return r
