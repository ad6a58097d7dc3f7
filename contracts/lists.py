"""list.c: a List is a sequence of nodes.

Ghost description: N(k), 0 <= k < n, are the node objects from head to tail, pos is the inverse.
"""
from .base import *

P_C02 = ['C02', 'C23']


class LS:
    def __init__(s, n, N, pos):
        s.n, s.N, s.pos = n, N, pos

    def at(s, k):
        """pointer to the k-th node, null outside the sequence"""
        return pite(And(k >= 0, k < s.n), Ptr(s.N(k), 0), NULL)


def lay(c):
    L = c.local
    for f in ('head', 'tail', 'count'):
        L['l_' + f] = c.off('_List', f)
    for f in ('data', 'prev', 'next'):
        L['n_' + f] = c.off('_Listitem', f)
    L['lsz'] = c.eng.sizeof('_List')
    L['nsz'] = c.eng.sizeof('_Listitem')
    return L


def parts(c, st, lp, S, k):
    L = c.local
    nd = Ptr(S.N(k), 0)
    inb = And(k >= 0, k < S.n)
    return [
        ('the list header is live', And(lp.off == 0, lp.obj > 0, st.size[lp.obj] == L['lsz'])),
        ('the count is the number of elements', And(S.n >= 0, st.ld(32, lp, L['l_count']) == S.n)),
        ('head is the first element', st.ld('p', lp, L['l_head']).eq(S.at(IV(0)))),
        ('tail is the last element', st.ld('p', lp, L['l_tail']).eq(S.at(S.n - 1))),
        ('nodes are live and distinct', imp(inb, And(S.N(k) > 0, st.size[S.N(k)] == L['nsz'], S.N(k) != lp.obj, S.pos(S.N(k)) == k))),
        ('next links', imp(inb, st.ld('p', nd, L['n_next']).eq(S.at(k + 1)))),
        ('prev links', imp(inb, st.ld('p', nd, L['n_prev']).eq(S.at(k - 1)))),
    ]


def entry(c, st, lp, nm=''):
    L = c.local
    N = z3.Function('N0' + nm, I, I)
    pos = z3.Function('pos0' + nm, I, I)
    n = z3.Int('n0' + nm)
    S = LS(n, N, pos)
    k = z3.Int('k!q')
    for lab, f in parts(c, st, lp, S, k):
        if f is not None and any(x.eq(k) for x in consts(f)):
            st.assume(forall([k], f, [N(k)]))
        else:
            st.assume(f)
    st.assume(n < 2 ** 31 - 1, ttF(N(IV(0))), ttF(N(n - 1)))
    # nodes existed before this call
    st.assume(forall([k], imp(And(k >= 0, k < n), N(k) < st.brk), [N(k)]))
    return S


def setup1(c, st):
    lay(c)
    c.local['S'] = entry(c, st, c.a[0])


def check(c, st, lp, S, pre='C02,C23: '):
    k = sk('k')
    S0 = c.local.get('S')
    g = And(*[ttF(S0.N(x)) for x in (k, k - 1, k + 1)]) if S0 is not None else z3.BoolVal(True)
    return [(pre + 'sequence: ' + l, imp(g, f)) for l, f in parts(c, st, lp, S, k)]


def data_same(c, skipnode=None):
    """every element of the old sequence keeps its data"""
    L = c.local
    S = L['S']
    k = sk('k')
    d = Ptr(S.N(k), L['n_data'])
    cond = And(k >= 0, k < S.n)
    if skipnode is not None:
        cond = And(cond, S.N(k) != skipnode)
    return [('C02: every other element keeps its data', imp(And(cond, ttF(S.N(k))), c.s1.ld('p', d).eq(c.s0.ld('p', d))))]


def gint(c, name):
    return gp(c, name, 'list')


def counters(c):
    return [(32, gint(c, 'itemcount')), (32, gint(c, 'headcount'))]


def cnt_ok(c):
    m = [c.s0.ld(32, p) for _, p in counters(c)]
    return [('bookkeeping counters far from overflow', And(*[And(x > -2 ** 30, x < 2 ** 30) for x in m]))]


def cnt_post(c, ditem, dhead):
    a, b = [p for _, p in counters(c)]
    return [('C02,C23: the node count follows allocations', c.s1.ld(32, a) == c.s0.ld(32, a) + ditem),
            ('C02,C23: the list count follows allocations', c.s1.ld(32, b) == c.s0.ld(32, b) + dhead)]


def freshnode(c, p):
    return And(p.off == 0, p.obj >= c.s0.brk, p.obj > 0)


# walking loops ---------------------------------------------------------
def walk(lc):
    """a cursor stands at the node numbered by the iteration count"""
    out = []
    S = lc.c.local.get('S')
    if S is None:
        return out
    out.append(('iteration within the sequence', And(lc.t >= 0, lc.t <= S.n)))
    out.append(('triggers', And(*[ttF(S.N(x)) for x in (lc.t, lc.t + 1, lc.t - 1)])))
    for nm in lc.nonaff:
        v = lc.phis[nm]
        if isinstance(v, Ptr):
            for d in (0, 1, -1):
                out.append(('%s is node t%+d' % (nm, d), v.eq(S.at(lc.t + d))))
    return out


# ------------------------------------------------------------------ append / prepend
def app_post(c, front):
    L = c.local
    S = L['S']
    new = c.ret
    if front:
        S1 = LS(S.n + 1, lambda k: If(k == 0, new.obj, S.N(k - 1)), lambda o: If(o == new.obj, 0, S.pos(o) + 1))
    else:
        S1 = LS(S.n + 1, lambda k: If(k == S.n, new.obj, S.N(k)), lambda o: If(o == new.obj, S.n, S.pos(o)))
    x = sk('x')
    return [('C02,C23: the new node is new storage', freshnode(c, new)),
            ('C02: it holds the given data', c.s1.ld('p', new, L['n_data']).eq(c.a[1])),
            ('C23: nothing else is allocated or freed', imp(x != new.obj, c.s1.size[x] == c.s0.size[x]))] \
        + check(c, c.s1, c.a[0], S1) + data_same(c) + cnt_post(c, 1, 0)


def app_regions(c, front):
    L = c.local
    S = L['S']
    lp = c.a[0]
    if front:
        nb, fl, hd = S.N(0), 'n_prev', 'l_head'
        other = 'l_tail'
    else:
        nb, fl, hd = S.N(S.n - 1), 'n_next', 'l_tail'
        other = 'l_head'
    r = lambda o, f: Or(And(o == lp.obj, Or(f == L[hd], And(S.n == 0, f == L[other]))), And(S.n > 0, o == nb, f == L[fl]))
    return {'po': r, 'pf': r}


for nm, front in (('AP_list_append', False), ('AP_list_prepend', True)):
    Unit(nm, Contract(nm, setup=setup1, pre=lambda c: cnt_ok(c), sizes=True,
                      post=lambda c, front=front: app_post(c, front),
                      regions=lambda c, front=front: app_regions(c, front),
                      cells=lambda c: counters(c) + [(32, c.a[0] + c.local['l_count'])]), P_C02)


# ------------------------------------------------------------------ delete_item
def del_S(S, j):
    return LS(S.n - 1, lambda k: If(k < j, S.N(k), S.N(k + 1)), lambda o: If(S.pos(o) < j, S.pos(o), S.pos(o) - 1))


def del_regions(c, j, cond=True):
    L = c.local
    S = L['S']
    lp = c.a[0]
    cond = z3.BoolVal(True) if cond is True else cond
    r = lambda o, f: And(cond, Or(And(o == lp.obj, Or(f == L['l_head'], f == L['l_tail'])),
                        And(j > 0, o == S.N(j - 1), f == L['n_next']), And(j < S.n - 1, o == S.N(j + 1), f == L['n_prev'])))
    return {'po': r, 'pf': r}


def deli_j(c):
    return c.local['S'].pos(c.a[1].obj)


def deli_pre(c):
    S = c.local['S']
    j = deli_j(c)
    return [('the item is in the list', And(c.a[1].off == 0, j >= 0, j < S.n, S.N(j) == c.a[1].obj, ttF(S.N(j - 1)), ttF(S.N(j + 1))))] + cnt_ok(c)


def gone(c, S, j):
    x = sk('x')
    return [('C23: exactly the removed node is freed', c.s1.size[x] == If(x == S.N(j), IV(-1), c.s0.size[x]))]


Unit('AP_list_delete_item', Contract(
    'AP_list_delete_item', setup=setup1, pre=deli_pre, sizes=True, nargs=2,
    cells=lambda c: counters(c) + [(32, c.a[0] + c.local['l_count'])],
    regions=lambda c: del_regions(c, deli_j(c)),
    post=lambda c: check(c, c.s1, c.a[0], del_S(c.local['S'], deli_j(c))) + data_same(c, c.a[1].obj)
    + gone(c, c.local['S'], deli_j(c)) + cnt_post(c, -1, 0)), P_C02)


# ------------------------------------------------------------------ searching
def first_post(c, pred):
    """the result is the first element satisfying pred, or null when none does"""
    S = c.local['S']
    m, j = sk('m'), S.pos(c.ret.obj)
    return [
        ('C02: nothing is reported exactly when no element qualifies',
         imp(c.ret.eq(NULL), imp(And(m >= 0, m < S.n, ttF(S.N(m))), Not(pred(m))))),
        ('C02: the element reported is in the list and qualifies',
         Or(c.ret.eq(NULL), And(c.ret.off == 0, j >= 0, j < S.n, S.N(j) == c.ret.obj, pred(j)))),
        ('C02: no earlier element qualifies',
         Or(c.ret.eq(NULL), imp(And(m >= 0, m < j, ttF(S.N(m))), Not(pred(m))))),
    ]


def nofound(lc, pred):
    S = lc.c.local['S']
    m = z3.Int('m!q')
    out = []
    for d in (0, 1, -1):
        out.append(('no element before t%+d qualifies' % d, forall([m], imp(And(m >= 0, m < lc.t + d), Not(pred(m))), [S.N(m)])))
    return out


def eqdata(c):
    S = c.local['S']
    return lambda m: c.s0.ld('p', Ptr(S.N(m), c.local['n_data'])).eq(c.a[1])


Unit('AP_list_search', Contract(
    'AP_list_search', setup=setup1, post=lambda c: first_post(c, eqdata(c)),
    invs=lambda lc: walk(lc) + nofound(lc, eqdata(lc.c))), P_C02)

Pred = z3.Function('pred', I, I, I, I, I, I)


def predof(c, d, x):
    return Pred(c.a[1].obj, d.obj, d.off, x.obj, x.off)


def fnptr(e, st, p, args, ins):
    """an arbitrary side-effect-free predicate over (element data, fixed data)"""
    v = Pred(p.obj, args[0].obj, args[0].off, args[1].obj, args[1].off)
    st.assume(inrange(v, 32))
    return [(st, v)]


def sfpred(c):
    S = c.local['S']
    return lambda m: predof(c, c.s0.ld('p', Ptr(S.N(m), c.local['n_data'])), c.a[2]) != 0


Unit('AP_list_search_func', Contract(
    'AP_list_search_func', setup=setup1, post=lambda c: first_post(c, sfpred(c)), fnptr=fnptr,
    invs=lambda lc: walk(lc) + nofound(lc, sfpred(lc.c))), P_C02)

# ------------------------------------------------------------------ delete by data
def dl_j(c):
    """index of the first element equal to the argument: witnessed by a spec function"""
    return c.local['jj']


def dl_setup(c, st):
    setup1(c, st)
    S = c.local['S']
    jj = c.local['jj'] = z3.Int('jj')
    m = z3.Int('m!q')
    p = eqdata_at(c, st)
    # definition of jj: the first qualifying index, or n when there is none
    st.assume(jj >= 0, jj <= S.n, imp(jj < S.n, p(jj)), ttF(S.N(jj)), ttF(S.N(jj - 1)), ttF(S.N(jj + 1)))
    st.assume(forall([m], imp(And(m >= 0, m < jj), Not(p(m))), [S.N(m)]))


def eqdata_at(c, st):
    S = c.local['S']
    return lambda m: st.ld('p', Ptr(S.N(m), c.local['n_data'])).eq(c.a[1])


def dl_post(c):
    S = c.local['S']
    j = c.local['jj']
    found = j < S.n
    S1 = del_S(S, j)
    out = [('C02: reports whether an element was removed', (c.ret != 0) == found)]
    out += [(l, imp(found, f)) for l, f in check(c, c.s1, c.a[0], S1)]
    out += [(l, imp(Not(found), f)) for l, f in check(c, c.s1, c.a[0], S)]
    out += data_same(c, S.N(j))
    x = sk('x')
    out += [('C23: exactly the removed node is freed', c.s1.size[x] == If(And(found, x == S.N(j)), IV(-1), c.s0.size[x]))]
    a, b = [p for _, p in counters(c)]
    out += [('C02,C23: the node count follows', c.s1.ld(32, a) == c.s0.ld(32, a) - If(found, 1, 0))]
    return out


def dl_invs(lc):
    S = lc.c.local['S']
    return walk(lc) + nofound(lc, eqdata(lc.c)) + [('t <= first match', lc.t <= lc.c.local['jj'])]


Unit('AP_list_delete', Contract(
    'AP_list_delete', setup=dl_setup, pre=cnt_ok, sizes=True, post=dl_post, invs=dl_invs,
    cells=lambda c: counters(c) + [(32, c.a[0] + c.local['l_count'])],
    regions=lambda c: del_regions(c, c.local['jj'], c.local['jj'] < c.local['S'].n)), P_C02)


# ------------------------------------------------------------------ simple accessors
def acc(nm, post, cells=None, pre=None):
    Unit(nm, Contract(nm, setup=setup1, post=post, cells=cells, pre=pre), P_C02)


acc('AP_list_size', lambda c: [('C02: the size is the number of elements', c.ret == c.local['S'].n)])
acc('AP_list_head_item', lambda c: [('C02: the head is the first element', c.ret.eq(c.local['S'].at(IV(0))))])


def headpre(c):
    return [('result cell', And(valid(c.s0, c.a[1], 8), c.a[1].obj != c.a[0].obj,
             (lambda k: forall([k], imp(And(k >= 0, k < c.local['S'].n), c.local['S'].N(k) != c.a[1].obj), [c.local['S'].N(k)]))(z3.Int('k!q'))))]


def headpost(which):
    def post(c):
        S = c.local['S']
        k = IV(0) if which == 'head' else S.n - 1
        return [('C02: reports whether there is a %s' % which, (c.ret != 0) == (S.n > 0)),
                ('C02: delivers the data of the %s' % which, imp(S.n > 0, c.s1.ld('p', c.a[1]).eq(c.s0.ld('p', Ptr(S.N(k), c.local['n_data']))))),
                ('C02: leaves the result alone when empty', imp(S.n == 0, c.s1.ld('p', c.a[1]).eq(c.s0.ld('p', c.a[1]))))]
    return post


acc('AP_list_head', headpost('head'), cells=lambda c: [('p', c.a[1])], pre=headpre)
acc('AP_list_tail', headpost('tail'), cells=lambda c: [('p', c.a[1])], pre=headpre)


def item_setup(c, st):
    lay(c)


def itempre(c):
    return [('a live node', And(c.a[0].off == 0, c.s0.size[c.a[0].obj] == c.local['nsz']))]


for nm, f in (('AP_listitem_prev', 'n_prev'), ('AP_listitem_next', 'n_next'), ('AP_listitem_data', 'n_data')):
    Unit(nm, Contract(nm, setup=item_setup, pre=itempre,
                      post=lambda c, f=f: [('C02: delivers the node\'s own field', c.ret.eq(c.s0.ld('p', c.a[0], c.local[f])))]), P_C02)


# ------------------------------------------------------------------ new / free
def new_post(c):
    S = LS(IV(0), lambda k: IV(0), lambda o: IV(0))
    x = sk('x')
    return [('C02,C23: a new list is new storage', freshnode(c, c.ret)),
            ('C23: nothing else is allocated or freed', imp(x != c.ret.obj, c.s1.size[x] == c.s0.size[x]))] \
        + check(c, c.s1, c.ret, S) + cnt_post(c, 0, 1)


Unit('AP_list_new', Contract('AP_list_new', setup=item_setup, pre=cnt_ok, sizes=True, post=new_post, cells=counters), P_C02)


def free_invs(lc):
    S = lc.c.local['S']
    o = z3.Int('o!q')
    out = walk(lc)
    E = lc.entry
    a = gint(lc.c, 'itemcount')
    for d in (0, 1, -1):
        out.append(('nodes before t%+d are freed' % d, forall([o], lc.st.size[o] == If(
            And(S.pos(o) >= 0, S.pos(o) < lc.t + d, S.N(S.pos(o)) == o), IV(-1), E.size[o]), [lc.st.size[o]])))
    out.append(('node counter', lc.st.ld(32, a) == E.ld(32, a) - lc.t))
    return out


def lfree_post(c):
    S = c.local['S']
    x = sk('x')
    isn = Or(x == c.a[0].obj, And(S.pos(x) >= 0, S.pos(x) < S.n, S.N(S.pos(x)) == x))
    return [('C02,C23: exactly the list and all its nodes are freed', c.s1.size[x] == If(isn, IV(-1), c.s0.size[x]))] \
        + cnt_post(c, -c.local['S'].n, -1)


Unit('AP_list_free', Contract('AP_list_free', setup=setup1, sizes=True, invs=free_invs, post=lfree_post,
                              pre=lambda c: [('bookkeeping counters far from overflow',
                                  And(*[And(c.s0.ld(32, p) > -1, c.s0.ld(32, p) < 2 ** 30) for _, p in counters(c)]))],
                              cells=counters), P_C02)


# ------------------------------------------------------------------ iteration
def next_pre(c):
    S = c.local['S']
    tp = c.a[2]
    T = c.s0.ld('p', tp)
    j = S.pos(T.obj)
    k = z3.Int('k!q')
    return [('cursor cell', And(valid(c.s0, tp, 8), valid(c.s0, c.a[1], 8), disjoint(tp, 8, c.a[1], 8))),
            ('cells are the caller\'s', And(tp.obj != c.a[0].obj, c.a[1].obj != c.a[0].obj,
             forall([k], imp(And(k >= 0, k < S.n), And(S.N(k) != tp.obj, S.N(k) != c.a[1].obj)), [S.N(k)]))),
            ('cursor is null or an element', Or(T.eq(NULL), And(T.off == 0, j >= 0, j < S.n, S.N(j) == T.obj))),
            ('trigger', ttF(S.N(j + 1)))]


def next_post(c):
    S = c.local['S']
    T = c.s0.ld('p', c.a[2])
    j = If(T.eq(NULL), IV(0), S.pos(T.obj) + 1)
    more = j < S.n
    return [('C02: reports whether there is a next element', (c.ret != 0) == more),
            ('C02: the cursor moves to the next element', imp(more, c.s1.ld('p', c.a[2]).eq(Ptr(S.N(j), 0)))),
            ('C02: delivers the next element\'s data', imp(more, c.s1.ld('p', c.a[1]).eq(c.s0.ld('p', Ptr(S.N(j), c.local['n_data'])))))]


Unit('AP_list_next', Contract('AP_list_next', setup=setup1, pre=next_pre, post=next_post,
                              cells=lambda c: [('p', c.a[1]), ('p', c.a[2])]), P_C02)


# ------------------------------------------------------------------ duplicate
def dup_invs(lc):
    c = lc.c
    S = c.local['S']
    out = walk(lc)
    E, st = lc.entry, lc.st
    L = c.local
    # the nodes created so far: ghost sequence D(k) = object allocated in iteration k
    b = E.brk
    out.append(('one allocation per iteration', st.brk == b + lc.t))
    k, o, f = z3.Ints('k!q o!q f!q')
    for nm in lc.nonaff:
        v = lc.phis[nm]
        if isinstance(v, Ptr):
            out.append(('%s is the last copy' % nm, v.eq(pite(lc.t > 0, Ptr(b + lc.t - 1, 0), NULL))))
    out.append(('sizes', forall([o], st.size[o] == If(And(o >= b, o < b + lc.t), IV(L['nsz']), E.size[o]), [st.size[o]])))
    for m in ('po', 'pf'):
        out.append(('old memory untouched %s' % m, forall([o, f], imp(Or(o < b - 1, And(o == b - 1, f != L['l_head']), o >= b + lc.t), st.mem[m][o][f] == E.mem[m][o][f]), [st.mem[m][o][f]])))
    def node(st, k):
        nd = Ptr(b + k, 0)
        return nd
    data = forall([k], imp(And(k >= 0, k < lc.t), And(
        st.ld('p', Ptr(b + k, L['n_data'])).eq(E.ld('p', Ptr(S.N(k), L['n_data']))),
        st.ld('p', Ptr(b + k, L['n_prev'])).eq(pite(k > 0, Ptr(b + k - 1, 0), NULL)),
        imp(k < lc.t - 1, st.ld('p', Ptr(b + k, L['n_next'])).eq(Ptr(b + k + 1, 0))))), [S.N(k)])
    out.append(('copies so far', data))
    a = gint(c, 'itemcount')
    out.append(('node counter', st.ld(32, a) == E.ld(32, a) + lc.t))
    out.append(('head of the copy', imp(lc.t > 0, st.ld('p', Ptr(b - 1, L['l_head'])).eq(Ptr(b, 0)))))
    for m in ('po', 'pf'):
        out.append(('memory besides the copy untouched %s' % m, forall([o, f], imp(Or(o < b - 1, And(o == b - 1, f != L['l_head'], f != L['l_tail']), o >= b + lc.t), st.mem[m][o][f] == E.mem[m][o][f]), [st.mem[m][o][f]])))
    out.append(('tail of the copy', st.ld('p', Ptr(b - 1, L['l_tail'])).eq(pite(lc.t > 0, Ptr(b + lc.t - 1, 0), NULL))))
    out.append(('count of the copy', st.ld(32, Ptr(b - 1, L['l_count'])) == lc.t))
    out.append(('the last copy ends the list', imp(lc.t > 0, st.ld('p', Ptr(b + lc.t - 1, L['n_next'])).eq(NULL))))
    out.append(('head of the copy 0', imp(lc.t == 0, st.ld('p', Ptr(b - 1, L['l_head'])).eq(NULL))))
    return out


def dup_post(c):
    S = c.local['S']
    b = c.ret.obj
    S1 = LS(S.n, lambda k: b + 1 + k, lambda o: o - b - 1)
    k = sk('k')
    return [('C02,C23: the duplicate is new storage', freshnode(c, c.ret)),
            ('C02: it holds the same data in the same order', imp(And(k >= 0, k < S.n, ttF(S.N(k))),
             c.s1.ld('p', Ptr(b + 1 + k, c.local['n_data'])).eq(c.s0.ld('p', Ptr(S.N(k), c.local['n_data'])))))] \
        + check(c, c.s1, c.ret, S1) + check(c, c.s1, c.a[0], S) + cnt_post(c, S.n, 1)


Unit('AP_list_duplicate', Contract('AP_list_duplicate', setup=setup1, sizes=True, invs=dup_invs, post=dup_post,
                                   pre=lambda c: cnt_ok(c) + [('length far from overflow', c.local['S'].n < 2 ** 30)], cells=counters), P_C02)
