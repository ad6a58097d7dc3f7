"""Executable specifications.

A specification is a Python program over the abstract state (queues, handle sets, request fields, statuses).  It is used
  * at call sites, as the contract of the callee (`contract`): the callee's body is not looked at;
  * in the proof of the function itself (`prove`): on every path of the real code that returns, the final state must equal the one
    the specification computes from the entry state; on every path that terminates, the specification must terminate.
Choices the specification leaves open (which handle value is allocated) are taken from the path's record of allocations.
"""
from .base import *
from .lib import *
from .consts import K


class SpecAbort(Exception):
    pass


class Exhausted(Exception):
    pass


class SP:
    def __init__(s, e, st, mode, dec, ev, end=None):
        s.e, s.st, s.mode, s.dec, s.ev, s.end = e, st, mode, dec, list(ev), end
        s.taken, s.alts = [], []
        s.ins = None
        s.why = None

    def when(s, cond, pick=None):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(s.taken)
        if i < len(s.dec):
            v = s.dec[i]
        elif s.mode == 'ref':
            # usually the real path has decided this already: refute the other side first, starting with the last answer
            H = s.e.__dict__.setdefault('spechints', {})
            v = H.get(i, True)
            if s.e.feasible(s.st, Not(c) if v else c):
                if s.e.feasible(s.st, c if v else Not(c)):
                    v = True
                    s.alts.append(s.taken + [False])
                else:
                    v = not v
            H[i] = v
        else:
            t = s.e.feasible(s.st, c)
            f = s.e.feasible(s.st, Not(c))
            v = t
            if t and f:
                s.alts.append(s.taken + [False])
        s.taken.append(v)
        s.st.assume(c if v else Not(c))
        return v

    def assume(s, *fs):
        s.st.assume(*fs)

    def require(s, f, label):
        """precondition of a callee: an obligation at call sites"""
        if s.mode == 'call':
            s.e.oblige(s.st, f, label, s.ins)

    def abort_if(s, cond, why):
        if s.when(cond):
            s.why = why
            raise SpecAbort()

    def event(s, kind):
        for i, x in enumerate(s.ev):
            if x[0] == kind:
                return s.ev.pop(i)
        raise Exhausted()

    def alloc(s):
        """a fresh handle; its storage holds arbitrary data"""
        st, e = s.st, s.e
        if s.mode == 'call':
            h = fresh('newh')
            rows = {m: fresh('S%s' % m, A1) for m in MAPS}
            st.trace.append(('alloc', h, rows))
        else:
            _, h, rows = s.event('alloc')
        st.assume(h >= 1, h < HMAX, Not(st.g['live'][h]), imp(Not(st.g['hinit']), h == 1))
        o = z3.simplify(slot(h))
        for m in MAPS:
            st.mem[m] = z3.Store(st.mem[m], o, rows[m])
            if st.stores is not None:
                st.stores.append((m, o, IV(0), None))
        st.size = z3.Store(st.size, o, IV(e.sizeof('Req')))
        st.g['live'] = z3.Store(st.g['live'], h, z3.BoolVal(True))
        st.g['hinit'] = z3.BoolVal(True)
        return h

    def c32(s, o, name, v=None, ty='Req'):
        off = s.e.offset(ty, name)[0]
        if v is None:
            return s.st.mem[32][o][off]
        s.st.put(32, Ptr(o, 0), v, off)


def explore(e, st, prog, mode, ev, end=None, ins=None):
    """all feasible runs of a specification; yields (outcome, sp, result)"""
    todo = [[]]
    n = 0
    while todo:
        dec = todo.pop()
        n += 1
        if n > 200:
            raise Unsupported('specification has too many cases')
        sp = SP(e, st.copy(), mode, dec, ev, end)
        sp.ins = ins
        try:
            r = prog(sp)
            out = 'ok'
        except SpecAbort:
            r, out = None, 'abort'
        except Exhausted:
            r, out = None, 'exhausted'
        todo += sp.alts
        yield out, sp, r


def contract_of(name, spec, effects, assumed=None):
    """the callee's contract at call sites"""
    def f(e, st, args, ins):
        n0 = len(e.obls)
        res = []
        for out, sp, r in explore(e, st, lambda sp: spec(sp, args), 'call', [], ins=ins):
            if out == 'ok':
                if assumed:
                    sp.assume(*assumed(sp))
                res.append((sp.st, r))
            else:
                e.end_abort(sp.st, 'in %s: %s' % (name, sp.why), ins)
        return res
    return Contract(name, custom=f, effects=tuple(effects))


def events(st):
    return [x for x in st.trace if isinstance(x, tuple) and x[0] in ('alloc', 'copy', 'first')]


def refines(spec, compare, lemma=None):
    """contract pieces that make a function's proof a refinement proof"""
    def at_return(e, c, s, r):
        base = c.s0.copy()
        base.pc = list(s.pc)
        for out, sp, rr in explore(e, base, lambda sp: spec(sp, c.a), 'ref', events(s), s):
            if out == 'abort':
                e.oblige(sp.st, z3.BoolVal(False), 'ensures the program is terminated: ' + str(sp.why))
            elif out == 'exhausted':
                e.oblige(sp.st, z3.BoolVal(False), 'ensures the specified allocations are made')
            else:
                for lab, f in compare(e, c, sp, s):
                    e.oblige(sp.st, f, 'ensures ' + lab)
                if rr is not None and r is not None:
                    e.oblige(sp.st, (r.eq(rr) if isinstance(r, Ptr) else r == rr), 'ensures the result is as specified')

    def at_abort(e, c, s, why, ins):
        base = c.s0.copy()
        base.pc = list(s.pc)
        for out, sp, rr in explore(e, base, lambda sp: spec(sp, c.a), 'ref', events(s), None):
            if out != 'abort':
                e.oblige(sp.st, z3.BoolVal(False), 'terminates (%s) only when the specification requires it' % why, ins)
    def at_end(c, rets):
        # what the specification itself preserves, on each of its cases
        if lemma is None:
            return
        e = c.eng
        for out, sp, rr in explore(e, c.s0.copy(), lambda sp: spec(sp, c.a), 'call', []):
            if out == 'ok':
                for lab, f in lemma(e, c, sp):
                    st = sp.st.copy()
                    e.oblige(st, f, 'specified state: ' + lab)
    return dict(at_return=at_return, at_abort=at_abort, frameless=True, at_end=at_end)
