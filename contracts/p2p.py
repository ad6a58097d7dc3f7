"""send.c, recv.c, probe.c, req.c (single requests): C03, C04, C06, C08, C19, C23, C24.

Abstract state: queues of pending requests per communicator, request fields, and for datatypes the number of pending
operations.  MSG / MSGCNT stand for what copy_message does with the bytes and the count it returns (its own contract: copy.py).

Invariant of every reachable state (INV):
  * every element of every queue is a live, incomplete request that records its queue node; its datatype is usable and held;
  * a communicator owns two distinct queues that belong to no other communicator;
  * requests, communicators and user datatypes are live handles and are different handles.
"""
from .base import *
from .lib import *
from .consts import K
from .spec import *
from .comm import SL, RL
from .types import npre, simpletypes, dtptr, lay

MSG = z3.Function('MSG', A2, I, I, I, I, I, I, I, I, A2)
MSGCNT = z3.Function('MSGCNT', I, I, I, I, I)
lcF = z3.Function('lcF', I, I)            # the communicator that owns a queue
BA2 = z3.ArraySort(I, z3.BoolSort())
TG = {'rcv': BA2, 'tp': A1, 'tf': BA2, 'commit': BA2, 'tk': A1, 'hr': A2}
ARRS = ('live', 'reqs', 'comms', 'dts')


def pghosts(c, st):
    ghosts(c, st)
    for g, s in TG.items():
        st.g[g] = z3.Const('%s_0' % g, s)
    e = c.eng
    e.pctx = c
    c.local['os'], c.local['or'] = e.offset('Comm', 'sendlist')[0], e.offset('Comm', 'recvlist')[0]
    e.local = c.local


def queue(e, st, h, which):
    return st.ld('p', Ptr(slot(h), 0), e.offset('Comm', 'sendlist' if which == 's' else 'recvlist')[0])


def fld(e, st, o, n, w=32):
    off = e.offset('Req', n)[0]
    return st.ld('p', Ptr(o, 0), off) if w == 'p' else st.mem[w][o][off]


def typed(st, h):
    return Or(And(h < 0, h >= -npre(None)), And(h > 0, st.g['dts'][h]))


def committed(st, h):
    return Or(h < 0, st.g['commit'][h])


# ------------------------------------------------------------------ the invariant
def qnode(e, st, l, k):
    g = st.g
    nd = g['lN'][l][k]
    o = g['ndo'][nd]
    r = SLOT0 - o
    li = fld(e, st, o, 'listitem', 'p')
    ty = fld(e, st, o, 'type')
    fr = fld(e, st, o, 'freed')
    return [('is a node of that queue only', And(l > 0, nd != 0, nd < st.brk, g['lown'][nd] == l, g['lpos'][nd] == k)),
            ('holds a live request', And(g['ndf'][nd] == 0, r >= 1, r < HMAX, g['live'][r], g['reqs'][r], st.size[o] == e.sizeof('Req'))),
            ('is incomplete', fld(e, st, o, 'complete') == 0),
            ('is recorded in the request', li.eq(Ptr(nd, 0))),
            ('is freed later only as itself', Or(fr == 0, fr == r)),
            ('has a usable datatype', typed(st, ty)),
            ('holds its datatype', imp(ty > 0, And(st.g['tk'][r] >= 0, st.g['tk'][r] < st.g['tp'][ty], st.g['hr'][ty][st.g['tk'][r]] == r)))]


def commok(e, st, h):
    g = st.g
    S, R = queue(e, st, h, 's'), queue(e, st, h, 'r')
    return [('is a live handle of its own kind', And(h >= 1, h < HMAX, g['live'][h], Not(g['reqs'][h]), Not(g['dts'][h]), st.size[slot(h)] == e.sizeof('Req'))),
            ('owns two live queues', And(S.off == 0, R.off == 0, S.obj > 0, R.obj > 0, S.obj != R.obj, S.obj < st.brk, R.obj < st.brk,
                                         g['llen'][S.obj] >= 0, g['llen'][R.obj] >= 0, lcF(S.obj) == h, lcF(R.obj) == h))]


def reqok(e, st, r):
    g = st.g
    d = fld(e, st, slot(r), 'complete')
    return [('is a live handle of its own kind', And(r >= 1, r < HMAX, g['live'][r], Not(g['comms'][r]), Not(g['dts'][r]), st.size[slot(r)] == e.sizeof('Req'))),
            ('is complete or not', And(d >= 0, d <= 1))]


def dtok(e, st, t):
    g = st.g
    return [('is a live handle of its own kind', And(t >= 1, t < HMAX, g['live'][t], Not(g['comms'][t]), Not(g['reqs'][t]), g['tp'][t] >= 0)),
            ('has storage of its own', st.mem['po'][slot(t)][0] > 0)]


def inv(e, st):
    g = st.g
    l, k, h = z3.Int('l!v'), z3.Int('k!v'), z3.Int('h!v')
    al = lambda xs: And(*[f for _, f in xs])
    lN = g['lN']
    return [forall([l, k], imp(And(k >= 0, k < g['llen'][l]), al(qnode(e, st, l, k))), [lN[l][k]]),
            forall([h], imp(g['comms'][h], al(commok(e, st, h))), [g['comms'][h]]),
            forall([h], imp(g['reqs'][h], al(reqok(e, st, h))), [g['reqs'][h]]),
            forall([h], imp(g['dts'][h], al(dtok(e, st, h))), [g['dts'][h]]),
            g['hinit']]


def settled(sp, h=None):
    """the invariant holds again after an operation (proved as a lemma about the operation's specification)"""
    st = sp.st
    sp.mid = None
    for g in ('reqs', 'comms', 'dts', 'lN', 'llen', 'live'):
        v = st.g[g]
        if z3.is_app(v) and v.num_args():
            n = fresh('g_' + g, v.sort())
            st.assume(n == v)
            st.g[g] = n
    sp.mid = st.copy()
    return inv(sp.e, st) + ([imp(st.g['reqs'][h], f) for _, f in reqok(sp.e, st, h)] if h is not None else [])


def invlemma(e, c, sp, P='C03,C04,C06,C23'):
    """the invariant again, element by element"""
    st = sp.st
    g = st.g
    l, k, h = fresh('l'), fresh('k'), fresh('h')
    z = sp.__dict__.get('mid') or c.s0
    q = z.g
    for i in (k, k + 1):
        st.assume(imp(And(i >= 0, i < q['llen'][l]), And(*[f for _, f in qnode(e, z, l, i)])))
    for nm, f in (('comms', commok), ('reqs', reqok), ('dts', dtok)):
        st.assume(imp(q[nm][h], And(*[x for _, x in f(e, z, h)])))
    return [(P + ': a queue element ' + n, imp(And(k >= 0, k < g['llen'][l]), f)) for n, f in qnode(e, st, l, k)] + \
           [(P + ': a communicator ' + n, imp(g['comms'][h], f)) for n, f in commok(e, st, h)] + \
           [(P + ': a request ' + n, imp(g['reqs'][h], f)) for n, f in reqok(e, st, h)] + \
           [(P + ': a datatype ' + n, imp(g['dts'][h], f)) for n, f in dtok(e, st, h)]


# ------------------------------------------------------------------ comparison of the real with the specified state
def compare(e, c, sp, s):
    t = sp.st
    A, B = s.g, t.g
    l, k, o, f, x = fresh('l'), fresh('k'), fresh('o'), fresh('f'), fresh('x')
    off = lambda n: e.offset('Req', n)[0]
    ny, nx = A['lN'][l][k], B['lN'][l][k]
    so = slot(x)
    us = user_(o)
    res = [
        ('C03,C04,C08,C23: no other message is queued or removed', A['llen'][l] == B['llen'][l]),
        ('C03,C04,C08: the queues hold the same messages in the same order', imp(And(k >= 0, k < B['llen'][l]), And(
            ny == nx, A['ndo'][ny] == B['ndo'][nx], A['ndf'][ny] == B['ndf'][nx], A['lown'][ny] == B['lown'][nx], A['lpos'][ny] == B['lpos'][nx]))),
        ('C01,C06,C07,C23: exactly the specified handles are live', A['live'][x] == B['live'][x]),
        ('C06,C23: datatypes stay held and live exactly as long as needed', And(A['dts'][x] == B['dts'][x], imp(B['dts'][x], A['tp'][x] == B['tp'][x]))),
        ('C04: communicators are unaffected', A['comms'][x] == B['comms'][x]),
        ('C23: storage is released exactly as specified', imp(Or(o > ALLOCA_HI, o <= SLOT0), s.size[o] == t.size[o])),
    ]
    if 8 in MAPS:
        a, b = s.mem[8], t.mem[8]
        if not a.eq(b):
            res.append(('C03,C04,C05: exactly the matched message is moved', imp(us, a[o][f] == b[o][f])))
    for m in (16, 32, 64, 'po', 'pf', 'f'):
        if not s.mem[m].eq(t.mem[m]):
            res.append(('C04,C06,C07,C08,C24: the results are as specified and nothing else changes (%s)' % m, imp(us, s.mem[m][o][f] == t.mem[m][o][f])))
            res.append(('C04,C23: other objects are unaffected (%s)' % m, imp(And(B['live'][x], x >= 1, Not(B['reqs'][x])), s.mem[m][so][f] == t.mem[m][so][f])))
    P = lambda st, n, w=32: fld(e, st, so, n, w)
    isr = And(B['live'][x], B['reqs'][x], x >= 1)
    done = P(t, 'complete') != 0
    res += [
        ('C03,C04,C06,C07,C24: requests are completed exactly when matched', imp(isr, And(P(s, 'complete') == P(t, 'complete')))),
        ('C06,C07,C23: requests are released exactly when due', imp(isr, P(s, 'freed') == P(t, 'freed'))),
        ('C06,C08,C24: completed requests record source, tag and count', imp(And(isr, done, B['rcv'][x]), And(P(s, 'source') == P(t, 'source'), P(s, 'tag') == P(t, 'tag'),
                                                                                             P(s, 'count') == P(t, 'count')))),
        ('C04: a request for the null process records it, any tag and no elements', imp(And(isr, done, B['rcv'][x], P(t, 'source') == K('MPI_PROC_NULL')), And(
            P(s, 'source') == P(t, 'source'), P(s, 'tag') == P(t, 'tag'), P(s, 'count') == P(t, 'count')))),
        ('C03,C05,C08,C24: pending requests record their message', imp(And(isr, Not(done)), And(
            P(s, 'tag') == P(t, 'tag'), P(s, 'count') == P(t, 'count'), P(s, 'type') == P(t, 'type'), P(s, 'buf', 'p').eq(P(t, 'buf', 'p')),
            P(s, 'listitem', 'p').eq(P(t, 'listitem', 'p'))))),
    ]
    return res


def user_(o):
    return Or(o > 0, And(o > SLOT0, o <= ALLOCA_HI)) if False else o > 0


# ------------------------------------------------------------------ datatypes and transfer, as their callers see them
def hold_(e, st, t):
    g = st.g
    g['tp'] = z3.Store(g['tp'], t, If(t > 0, g['tp'][t] + 1, g['tp'][t]))


def k_hold(e, st, args, ins):
    t = args[0]
    e.oblige(st, typed(st, t), 'call Type_hold requires a usable datatype', ins)
    hold_(e, st, t)
    return [(st, None)]


def release_(e, st, t):
    g = st.g
    n = g['tp'][t]
    gone = And(t > 0, n == 1, g['tf'][t])
    T = st.mem['po'][slot(t)][0]
    g['tp'] = z3.Store(g['tp'], t, If(t > 0, n - 1, n))
    st.size = If(gone, z3.Store(z3.Store(st.size, T, IV(-1)), slot(t), IV(-1)), st.size)
    for a in ('live', 'dts'):
        g[a] = z3.Store(g[a], t, And(g[a][t], Not(gone)))


def k_release(e, st, args, ins):
    t = args[0]
    e.oblige(st, typed(st, t), 'call Type_release requires a usable datatype', ins)
    e.oblige(st, imp(t > 0, st.g['tp'][t] >= 1), 'call Type_release requires that an operation holds the datatype', ins)
    release_(e, st, t)
    return [(st, None)]


def copy_(e, st, args):
    sb, sc, ty, db, dc, dy = args
    m = st.mem[8]
    st.mem[8] = MSG(m, sb.obj, sb.off, sc, ty, db.obj, db.off, dc, dy)
    if st.stores is not None:
        st.stores.append((8, fresh('any'), IV(0), None))
    n = MSGCNT(sc, ty, dc, dy)
    st.assume(n >= 0, n < 2 ** 31)
    return n


def k_copymsg(e, st, args, ins):
    sb, sc, ty, db, dc, dy = args
    e.oblige(st, And(typed(st, ty), typed(st, dy)), 'call copy_message requires usable datatypes', ins)
    ok = And(committed(st, ty), committed(st, dy))
    if e.feasible(st, Not(ok)):
        s2 = st.copy()
        s2.assume(Not(ok))
        e.end_abort(s2, 'in copy_message: uncommitted datatype', ins)
    st.assume(ok)
    if not e.feasible(st, z3.BoolVal(True)):
        return []
    return [(st, copy_(e, st, args))]


def k_alloc_req(e, st, args, ins):
    (s, _), = k_alloc(e, st, args, ins)
    h = s.trace[-1][1]
    s.g['reqs'] = z3.Store(s.g['reqs'], h, z3.BoolVal(True))
    return [(s, None)]


XEFF = HEFF + LEFF + [8, 16, 32, 64, 'po', 'pf', 'f', ('g', 'tp'), ('g', 'tf'), ('g', 'tk'), ('g', 'hr')]
TYPES = {'Type_hold': cust('Type_hold', k_hold, [('g', 'tp')]),
         'Type_release': cust('Type_release', k_release, HEFF + [('g', 'tp')]),
         'copy_message': cust('copy_message', k_copymsg, [8])}
BASE = dict({**HANDLES, **LISTS, **TYPES}, mpi_alloc_handle=cust('mpi_alloc_handle', k_alloc_req, XEFF))


# ------------------------------------------------------------------ specifications
def first(sp, l, acc):
    """index of the first element of queue l that acc accepts, or None"""
    g = sp.st.g
    st = sp.st
    m = z3.Int('m!f')
    if sp.mode == 'ref':
        # the element the code's own search found, if it made one here
        for i, x in enumerate(sp.ev):
            if x[0] == 'first':
                sp.ev.pop(i)
                J = x[2]
                n = g['llen'][l]
                row_ = g['lN'][l]
                lab = 'C03,C04,C08: the earliest compatible partner is chosen'
                sp.e.oblige(st, x[1] == l, lab + ' (queue)')
                i = fresh('i')
                st.assume(ttF(row_[i]))
                if J is None:
                    sp.e.oblige(st, imp(And(i >= 0, i < n), Not(acc(st, l, i))), lab + ' (there is none)')
                    st.assume(forall([m], imp(And(m >= 0, m < n), Not(acc(st, l, m))), [row_[m]]))
                else:
                    sp.e.oblige(st, And(J >= 0, J < n, acc(st, l, J)), lab + ' (it is compatible)')
                    sp.e.oblige(st, imp(And(i >= 0, i < J), Not(acc(st, l, i))), lab + ' (no earlier one is)')
                    st.assume(forall([m], imp(And(m >= 0, m < J), Not(acc(st, l, m))), [row_[m]]))
                return J
    J = fresh('J')
    n = g['llen'][l]
    row_ = g['lN'][l]
    if sp.when_first(lambda: [J >= 0, J < n, acc(st, l, J), ttF(J), forall([m], imp(And(m >= 0, m < J), Not(acc(st, l, m))), [row_[m]])],
                     lambda: [forall([m], imp(And(m >= 0, m < n), Not(acc(st, l, m))), [row_[m]])]):
        st.trace.append(('first', l, J))
        return J
    st.trace.append(('first', l, None))
    return None


def when_first(sp, yes, no):
    i = len(sp.taken)
    Y, N = yes(), no()
    if i < len(sp.dec):
        v = sp.dec[i]
    else:
        t = sp.e.feasible(sp.st, And(*Y))
        f = sp.e.feasible(sp.st, And(*N))
        v = t
        if t and f:
            sp.alts.append(sp.taken + [False])
    sp.taken.append(v)
    sp.assume(*(Y if v else N))
    return v


SP.when_first = when_first


def elem(sp, l, J):
    g = sp.st.g
    nd = g['lN'][l][J]
    return nd, g['ndo'][nd]


def accepts_recv(tag):
    """the pending receive at position m accepts a message with this tag"""
    def f(e):
        def a(st, l, m):
            nd = st.g['lN'][l][m]
            t = fld(e, st, st.g['ndo'][nd], 'tag')
            return Or(t == K('MPI_ANY_TAG'), t == tag)
        return a
    return f


def accepts_send(tag):
    def f(e):
        def a(st, l, m):
            nd = st.g['lN'][l][m]
            t = fld(e, st, st.g['ndo'][nd], 'tag')
            return Or(tag == K('MPI_ANY_TAG'), t == tag)
        return a
    return f


def newreq(sp):
    h = sp.handle = sp.alloc()
    st = sp.st
    st.g['reqs'] = z3.Store(st.g['reqs'], h, z3.BoolVal(True))
    sp.c32(slot(h), 'freed', IV(K('MPI_REQUEST_NULL')))
    return h


def dequeue(sp, l, nd):
    sp.e.muted += 1
    try:
        k_delete(sp.e, sp.st, [Ptr(l, 0), Ptr(nd, 0)], None)
    finally:
        sp.e.muted -= 1


def drop_handle(sp, h, when):
    """release a handle (if when)"""
    st = sp.st
    if not sp.when(when):
        return
    st.size = z3.Store(st.size, slot(h), IV(-1))
    for a in ARRS:
        st.g[a] = z3.Store(st.g[a], h, z3.BoolVal(False))


def ticket_out(sp, r, t):
    g = sp.st.g
    n = g['tp'][t]
    last = g['hr'][t][n - 1]
    i = g['tk'][r]
    g['hr'] = z3.Store(g['hr'], t, z3.Store(g['hr'][t], i, last))
    mine = And(fld(sp.e, sp.st, slot(last), 'type') == t, g['tk'][last] == n - 1)
    g['tk'] = z3.Store(g['tk'], last, If(mine, i, g['tk'][last]))


def enqueue(sp, l, h, buf, count, ty, tag):
    st, e, g = sp.st, sp.e, sp.st.g
    o = slot(h)
    st.put('p', Ptr(o, 0), buf, e.offset('Req', 'buf')[0])
    sp.c32(o, 'count', count)
    sp.c32(o, 'type', ty)
    sp.c32(o, 'tag', tag)
    sp.c32(o, 'complete', IV(0))
    n = g['tp'][ty]
    g['tk'] = z3.Store(g['tk'], h, n)
    g['hr'] = z3.Store(g['hr'], ty, z3.Store(g['hr'][ty], n, h))
    hold_(e, st, ty)
    (s2, nd), = k_append(e, st, [Ptr(l, 0), Ptr(o, 0)], None)
    st.put('p', Ptr(o, 0), nd, e.offset('Req', 'listitem')[0])


def opre(sp, ty, comm, cnt):
    sp.require(And(comm >= 1, sp.st.g['comms'][comm]), 'a live communicator')
    sp.require(typed(sp.st, ty), 'a usable datatype')
    sp.require(cnt >= 0, 'a nonnegative count')


def isend(sp, buf, count, ty, dest, tag, comm):
    e, st = sp.e, sp.st
    opre(sp, ty, comm, count)
    sp.abort_if(And(dest != 0, dest != K('MPI_PROC_NULL')), 'send to a process other than rank 0')
    h = newreq(sp)
    st.g['rcv'] = z3.Store(st.g['rcv'], h, z3.BoolVal(False))
    if sp.when(dest == K('MPI_PROC_NULL')):
        sp.c32(slot(h), 'complete', IV(1))
        return h
    R = queue(e, st, comm, 'r').obj
    J = first(sp, R, accepts_recv(tag)(e))
    if J is None:
        enqueue(sp, queue(e, st, comm, 's').obj, h, buf, count, ty, tag)
        return h
    nd, o = elem(sp, R, J)
    m = SLOT0 - o
    rb, rc, rt, fr = fld(e, st, o, 'buf', 'p'), fld(e, st, o, 'count'), fld(e, st, o, 'type'), fld(e, st, o, 'freed')
    sp.abort_if(Not(And(committed(st, ty), committed(st, rt))), 'uncommitted datatype')
    dequeue(sp, R, nd)
    n = copy_(e, st, [buf, count, ty, rb, rc, rt])
    ticket_out(sp, m, rt)
    release_(e, st, rt)
    for k, v in (('count', n), ('complete', IV(1)), ('source', IV(0)), ('tag', tag)):
        sp.c32(o, k, v)
    sp.c32(slot(h), 'complete', IV(1))
    drop_handle(sp, fr, fr != 0)
    return h


def irecv(sp, buf, count, ty, source, tag, comm):
    e, st = sp.e, sp.st
    opre(sp, ty, comm, count)
    PN = K('MPI_PROC_NULL')
    sp.abort_if(And(source != 0, source != K('MPI_ANY_SOURCE'), source != PN), 'receive from a process other than rank 0')
    h = newreq(sp)
    st.g['rcv'] = z3.Store(st.g['rcv'], h, z3.BoolVal(True))
    o = slot(h)
    done = lambda n, s, t: [sp.c32(o, k, v) for k, v in (('count', n), ('source', s), ('tag', t), ('complete', IV(1)))]
    if sp.when(source == PN):
        done(IV(0), IV(PN), IV(K('MPI_ANY_TAG')))
        return h
    S = queue(e, st, comm, 's').obj
    J = first(sp, S, accepts_send(tag)(e))
    if J is None:
        enqueue(sp, queue(e, st, comm, 'r').obj, h, buf, count, ty, tag)
        return h
    nd, so = elem(sp, S, J)
    m = SLOT0 - so
    sb, sc, sy, fr, stag = fld(e, st, so, 'buf', 'p'), fld(e, st, so, 'count'), fld(e, st, so, 'type'), fld(e, st, so, 'freed'), fld(e, st, so, 'tag')
    sp.abort_if(Not(And(committed(st, sy), committed(st, ty))), 'uncommitted datatype')
    dequeue(sp, S, nd)
    n = copy_(e, st, [sb, sc, sy, buf, count, ty])
    ticket_out(sp, m, sy)
    release_(e, st, sy)
    done(n, IV(0), stag)
    sp.c32(so, 'complete', IV(1))
    drop_handle(sp, fr, fr != 0)
    return h


SF = ('MPI_SOURCE', 'MPI_TAG', 'get_count')


def setstatus(sp, p, src, tag, n):
    if p is None:
        return
    if sp.when(p.eq(NULL)):
        return
    for k, v in zip(SF, (src, tag, n)):
        sp.st.put(32, p, v, sp.e.offset('MPI_Status', k)[0])


def test_(sp, r, status):
    """one request: returns (completed?, new value of the request variable)"""
    e, st = sp.e, sp.st
    sp.require(Or(r == 0, And(r >= 1, st.g['reqs'][r])), 'a null or live request')
    if sp.when(r == 0):
        setstatus(sp, status, IV(K('MPI_ANY_SOURCE')), IV(K('MPI_ANY_TAG')), IV(0))
        return True, IV(0)
    sp.assume(*[imp(st.g['reqs'][r], f) for _, f in reqok(e, st, r)] if sp.mode == 'never' else [])
    o = slot(r)
    if not sp.when(fld(e, st, o, 'complete') != 0):
        return False, r
    setstatus(sp, status, fld(e, st, o, 'source'), fld(e, st, o, 'tag'), fld(e, st, o, 'count'))
    drop_handle(sp, r, z3.BoolVal(True))
    return True, IV(K('MPI_REQUEST_NULL'))


def wait_(sp, r, status, why='the request is not complete'):
    d, r2 = test_(sp, r, status)
    if not d:
        sp.why = why
        raise SpecAbort()
    return r2


SUCC = lambda: IV(K('MPI_SUCCESS'))


def cell(sp, p, n=4, null=False):
    sp.require(Or(p.eq(NULL), valid(sp.st, p, n)) if null else valid(sp.st, p, n), 'a valid result cell')


def stat(sp, p):
    cell(sp, p, sp.e.sizeof('MPI_Status'), True)


def s_isend(sp, a):
    cell(sp, a[6])
    h = isend(sp, *a[:6])
    sp.st.put(32, a[6], h)
    return SUCC()


def s_irecv(sp, a):
    cell(sp, a[6])
    h = irecv(sp, *a[:6])
    sp.st.put(32, a[6], h)
    return SUCC()


def isend_(sp, *a):
    h = isend(sp, *a)
    if sp.mode == 'call':
        sp.assume(*settled(sp, h))
    return h


def irecv_(sp, *a):
    h = irecv(sp, *a)
    if sp.mode == 'call':
        sp.assume(*settled(sp, h))
    return h


def s_irsend(sp, a):
    cell(sp, a[6])
    h = isend_(sp, *a[:6])
    sp.abort_if(fld(sp.e, sp.st, slot(h), 'complete') == 0, 'ready send without a posted receive')
    sp.st.put(32, a[6], h)
    return SUCC()


def s_send(sp, a):
    h = isend_(sp, *a[:6])
    wait_(sp, h, None)
    return SUCC()


def s_recv(sp, a):
    stat(sp, a[6])
    h = irecv_(sp, *a[:6])
    wait_(sp, h, a[6])
    return SUCC()


def s_sendrecv(sp, a):
    h = irecv_(sp, a[5], a[6], a[7], a[8], a[9], a[10])
    g = isend_(sp, a[0], a[1], a[2], a[3], a[4], a[10])
    wait_(sp, g, None)
    wait_(sp, h, a[11])
    return SUCC()


def s_test(sp, a):
    cell(sp, a[0])
    cell(sp, a[1])
    stat(sp, a[2])
    r = sp.st.ld(32, a[0])
    d, r2 = test_(sp, r, a[2])
    sp.st.put(32, a[1], IV(1 if d else 0))
    sp.st.put(32, a[0], r2)
    return SUCC()


def s_wait(sp, a):
    cell(sp, a[0])
    stat(sp, a[1])
    r = sp.st.ld(32, a[0])
    sp.st.put(32, a[0], wait_(sp, r, a[1]))
    return SUCC()


def s_reqfree(sp, a):
    cell(sp, a[0])
    st, e = sp.st, sp.e
    r = st.ld(32, a[0])
    sp.require(Or(r == 0, And(r >= 1, st.g['reqs'][r])), 'a null or live request')
    if not sp.when(r == 0):
        if sp.when(fld(e, st, slot(r), 'complete') != 0):
            drop_handle(sp, r, z3.BoolVal(True))
        else:
            sp.c32(slot(r), 'freed', r)
    st.put(32, a[0], IV(K('MPI_REQUEST_NULL')))
    return SUCC()


def dcount(e, st, ty):
    """elements per item of a datatype"""
    return st.ld(32, dtptr(e.pctx, st, ty), lay(e.pctx).count)


def iprobe(sp, source, tag, comm, status):
    """position of the message the next such receive would take, or None"""
    e, st = sp.e, sp.st
    sp.require(And(comm >= 1, st.g['comms'][comm]), 'a live communicator')
    sp.abort_if(And(source != 0, source != K('MPI_ANY_SOURCE')), 'probe for a process other than rank 0')
    S = queue(e, st, comm, 's').obj
    J = first(sp, S, accepts_send(tag)(e))
    if J is not None:
        _, o = elem(sp, S, J)
        n, dc = fld(e, st, o, 'count'), dcount(e, st, fld(e, st, o, 'type'))
        sp.assume(mulF(n, dc) == mulF(dc, n))
        setstatus(sp, status, IV(0), fld(e, st, o, 'tag'), mulF(n, dc))
    return J


def s_iprobe(sp, a):
    cell(sp, a[3])
    stat(sp, a[4])
    J = iprobe(sp, a[0], a[1], a[2], a[4])
    sp.st.put(32, a[3], IV(0 if J is None else 1))
    return SUCC()


def s_probe(sp, a):
    if iprobe(sp, a[0], a[1], a[2], a[3]) is None:
        sp.why = 'there is no such message'
        raise SpecAbort()
    return SUCC()


# ------------------------------------------------------------------ units
CNT = 'the element count of a message fits an int; the buffers of a pending message stay valid until it completes (MPI rule)'


def notype(c, o):
    """the object is no datatype's storage"""
    t = z3.Int('t!n')
    d = c.s0.g['dts']
    return forall([t], imp(d[t], c.s0.mem['po'][slot(t)][0] != o), [d[t]])


def ucell(c, i, n=4):
    return ('argument %d is writable' % i, And(valid(c.s0, c.a[i], n), c.a[i].obj > 0, notype(c, c.a[i].obj)))


def ustatus(c, i, others=()):
    p = c.a[i]
    n = c.eng.sizeof('MPI_Status')
    return ('status %d is writable or ignored, and apart from the other results' % i,
            Or(p.eq(NULL), And(valid(c.s0, p, n), p.obj > 0, notype(c, p.obj), *[disjoint(p, n, c.a[j], 4) for j in others])))


def pre_(*more):
    def f(c):
        r = [('the invariant', And(*inv(c.eng, c.s0)))]
        for m in more:
            r += m(c)
        return r
    return f


def op(ty, comm, cnt):
    return lambda c: [('a live communicator', And(c.a[comm] >= 1, c.s0.g['comms'][c.a[comm]])), ('a usable datatype', typed(c.s0, c.a[ty])),
                      ('a nonnegative count', c.a[cnt] >= 0)]


def reqvar(i):
    def f(c):
        r = c.s0.ld(32, c.a[i])
        return [ucell(c, i), ('the request variable is null or a live request', Or(r == 0, And(r >= 1, c.s0.g['reqs'][r])))]
    return f


def unit(nm, spec, props, pre, callees, lemma=invlemma, cost=1, after=True):
    Unit(nm, Contract(nm, setup=pghosts, pre=pre, **refines(spec, compare, lemma)), props, callees=dict(BASE, **callees), cost=cost,
         assumptions=[CNT], opts={'retries': ({'smt.random_seed': 7, 'smt.arith.solver': 2},)})
    return {nm: contract_of(nm, spec, XEFF, (lambda sp: settled(sp, sp.__dict__.get('handle'))) if after else None)}


cells = lambda *ix: (lambda c: [ucell(c, i) for i in ix])
ISEND = unit('MPI_Isend', s_isend, ['C05', 'C03', 'C04', 'C06', 'C19', 'C23', 'C24'], pre_(op(2, 5, 1), cells(6)), {}, cost=9)
IRECV = unit('MPI_Irecv', s_irecv, ['C05', 'C03', 'C04', 'C06', 'C19', 'C23', 'C24'], pre_(op(2, 5, 1), cells(6)), {}, cost=9)
TEST = unit('MPI_Test', s_test, ['C06', 'C07', 'C23', 'C24'],
            pre_(reqvar(0), cells(1), lambda c: [('results apart', disjoint(c.a[0], 4, c.a[1], 4)), ustatus(c, 2, (0, 1))]), {})
WAIT = unit('MPI_Wait', s_wait, ['C06', 'C07', 'C23', 'C24'], pre_(reqvar(0), lambda c: [ustatus(c, 1, (0,))]), TEST)
REQFREE = unit('MPI_Request_free', s_reqfree, ['C06', 'C23'], pre_(reqvar(0)), {})
SEND = unit('MPI_Send', s_send, ['C03', 'C04', 'C06', 'C19', 'C23'], pre_(op(2, 5, 1)), {**ISEND, **WAIT}, cost=3)
unit('MPI_Ssend', s_send, ['C03', 'C04', 'C19'], pre_(op(2, 5, 1)), SEND)
unit('MPI_Rsend', s_send, ['C03', 'C04', 'C19'], pre_(op(2, 5, 1)), SEND)
unit('MPI_Irsend', s_irsend, ['C03', 'C04', 'C19', 'C23'], pre_(op(2, 5, 1), cells(6)), ISEND, cost=3)
RECV = unit('MPI_Recv', s_recv, ['C03', 'C04', 'C06', 'C19', 'C23', 'C24'], pre_(op(2, 5, 1), lambda c: [ustatus(c, 6)]), {**IRECV, **WAIT}, cost=3)
def probed(c):
    """the datatypes of pending messages exist, and the number of elements of a message is representable"""
    e, st = c.eng, c.s0
    l, k = z3.Int('l!d'), z3.Int('k!d')
    o = st.g['ndo'][st.g['lN'][l][k]]
    ty = fld(e, st, o, 'type')
    T = dtptr(c, st, ty)
    p = mulF(fld(e, st, o, 'count'), st.ld(32, T, lay(c).count))
    return [('the datatypes of pending messages are valid, and their element counts representable', forall([l, k], imp(
        And(k >= 0, k < st.g['llen'][l]), And(T.off == 0, T.obj != 0, T.obj > ALLOCA_HI, imp(ty < 0, T.obj < 0), st.size[T.obj] >= lay(c).pairs, p >= 0, p < 2 ** 31)), [st.g['lN'][l][k]]))]


pcomm = lambda i: (lambda c: [('a live communicator', And(c.a[i] >= 1, c.s0.g['comms'][c.a[i]]))])
IPROBE = unit('MPI_Iprobe', s_iprobe, ['C08', 'C04', 'C24'], pre_(pcomm(2), cells(3), lambda c: [ustatus(c, 4, (3,))], probed), {})
PROBE = unit('MPI_Probe', s_probe, ['C08', 'C04', 'C24'], pre_(pcomm(2), lambda c: [ustatus(c, 3)], probed), IPROBE)


def kept_type(*ixs):
    """the caller does not use a datatype it has freed"""
    return lambda c: [('argument %d was not freed' % i, imp(c.a[i] > 0, Not(c.s0.g['tf'][c.a[i]]))) for i in ixs]


def sendrecv_units():
    """the cases together cover every call"""
    null = K('MPI_PROC_NULL')
    rn, dn = (lambda c: c.a[8] == null), (lambda c: c.a[3] == null)
    acc = lambda c: Or(c.a[9] == K('MPI_ANY_TAG'), c.a[9] == c.a[4])
    both = lambda c: And(Not(rn(c)), Not(dn(c)))

    def here(c, w, acc_, k=None):
        """a pending operation (at position k of queue w) that the other side of the call matches / none of them does"""
        e, st = c.eng, c.s0
        l = queue(e, st, c.a[10], w).obj
        m = z3.Int('m!f') if k is None else z3.Int(k)
        f = And(m >= 0, m < st.g['llen'][l], acc_(e)(st, l, m))
        return f if k is not None else forall([m], Not(f), [st.g['lN'][l][m]])
    msg = lambda c, k=None: here(c, 's', accepts_send(c.a[9]), k)
    rcv = lambda c, k=None: here(c, 'r', accepts_recv(c.a[4]), k)
    cases = [('receive from no process', rn), ('send to no process', lambda c: And(dn(c), Not(rn(c)))),
             ('a matching message and a matching receive are pending', lambda c: And(both(c), msg(c, 'k!p'), rcv(c, 'k!q'))),
             ('a matching message is pending', lambda c: And(both(c), msg(c, 'k!p'), rcv(c))),
             ('no matching message is pending, the tags match', lambda c: And(both(c), acc(c), msg(c))),
             ('no matching message is pending, the tags differ', lambda c: And(both(c), Not(acc(c)), msg(c)))]
    for t, cond in cases:
        unit('MPI_Sendrecv', s_sendrecv, ['C03', 'C04', 'C24'],
             pre_(op(2, 10, 1), op(7, 10, 6), kept_type(2, 7), lambda c: [ustatus(c, 11)], lambda c, f=cond: [('case: ' + t, f(c))]),
             {**IRECV, **SEND, **WAIT}, cost=9)
        u = UNITS[-1]
        u.title = 'MPI_Sendrecv (%s)' % t
        u.contract.noreturn = True      # some cases never return (checked against the specified termination)


sendrecv_units()
