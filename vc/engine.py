"""Deductive verifier for the C code of /repo, at the level of the LLVM IR that
clang produces from it on every run.

Function by function: symbolic execution of every path of the real code (loops
are cut at their headers by inductive invariants, calls are replaced by the
callee's contract, functions without a contract are inlined) generates proof
obligations that an SMT solver discharges.  Integers are mathematical, with an
obligation at every operation that the result is representable; pointers are
(object, offset) pairs; memory is one two-level array per access width.
"""
import time, os, sys
import z3
from . import ir
from .ir import Unsupported

I = z3.IntSort()
A1 = z3.ArraySort(I, I)
A2 = z3.ArraySort(I, A1)
IV = z3.IntVal
MAPS = (8, 16, 32, 64, 'po', 'pf', 'f')
LADDER = ((.12, False, 0, 'simple'), (.12, False, 0, 'tactic'), (.12, True, 0, 'tactic'), (.12, True, 1, 'simple'), (.12, True, 1, 'tactic'),
          (.12, False, 1, 'tactic'), (.12, False, 2, 'simple'), (.12, True, 2, 'tactic'), (.12, False, 2, 'tactic'), (.12, True, 4, 'tactic'),
          (.12, False, 4, 'simple'), (.12, True, 5, 'tactic'), (.12, False, 6, 'tactic'), (1, True, 3, 'tactic'))
RL = int(os.environ.get('VC_RLIMIT', '2000'))     # solver steps per millisecond of budget
SLOT0 = -1000000
ALLOCA_HI = -1000          # alloca object ids lie in (SLOT0, ALLOCA_HI]

mulF = z3.Function('mul', I, I, I)
divF = z3.Function('tdiv', I, I, I)
modF = z3.Function('tmod', I, I, I)
borF = z3.Function('bor', I, I, I)
bandF = z3.Function('band', I, I, I)
bxorF = z3.Function('bxor', I, I, I)
addrF = z3.Function('addr', I, I)
fbin = {o: z3.Function(o, I, I, I) for o in ('fadd', 'fsub', 'fmul', 'fdiv')}
fcast = {o: z3.Function(o, I, I) for o in ('sitofp', 'fptosi', 'fpext', 'fptrunc', 'uitofp')}

_n = [0]


ttF = z3.Function('trigger', I, z3.BoolSort())
_x = z3.Int('x!tt')
TT_AXIOM = z3.ForAll([_x], ttF(_x), patterns=[ttF(_x)])


def fresh(nm='v', sort=None):
    _n[0] += 1
    return z3.Const('%s!%d' % (nm, _n[0]), sort if sort is not None else I)


def slot(h):
    """logical object that holds the data of handle h"""
    return SLOT0 - h


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(s, obj, off=0):
        s.obj = obj if z3.is_expr(obj) else IV(obj)
        s.off = off if z3.is_expr(off) else IV(off)

    def __add__(s, d):
        return Ptr(s.obj, z3.simplify(s.off + d))

    def eq(s, o):
        return z3.And(s.obj == o.obj, s.off == o.off)

    def __repr__(s):
        return 'Ptr(%s,%s)' % (s.obj, s.off)


NULL = Ptr(0, 0)


def pite(c, a, b):
    return Ptr(z3.If(c, a.obj, b.obj), z3.If(c, a.off, b.off))


def valeq(a, b):
    if isinstance(a, Ptr) != isinstance(b, Ptr):
        return z3.BoolVal(False)
    if isinstance(a, Ptr):
        return a.eq(b)
    return a == b


class St:
    def __init__(s):
        s.pc = []
        s.mem = {}
        s.size = None
        s.brk = None
        s.g = {}
        s.env = {}
        s.trace = []
        s.stores = None
        s.newobjs = []

    def copy(s):
        t = St()
        t.pc = list(s.pc)
        t.mem = dict(s.mem)
        t.size, t.brk = s.size, s.brk
        t.g = dict(s.g)
        t.env = dict(s.env)
        t.trace = list(s.trace)
        t.stores = s.stores
        t.newobjs = list(s.newobjs)
        return t

    def assume(s, *fs):
        for f in fs:
            if z3.is_true(f):
                continue
            if z3.is_and(f):
                s.assume(*f.children())
            else:
                s.pc.append(f)

    # -- raw memory access (no obligations; used by contracts)
    def ld(s, w, p, off=0):
        q = p + off if not (isinstance(off, int) and off == 0) else p
        if w == 'p':
            return Ptr(s.mem['po'][q.obj][q.off], s.mem['pf'][q.obj][q.off])
        return s.mem[w][q.obj][q.off]

    def put(s, w, p, v, off=0):
        q = p + off if not (isinstance(off, int) and off == 0) else p
        if w == 'p':
            s._st('po', q, v.obj)
            s._st('pf', q, v.off)
        else:
            s._st(w, q, v)

    def _st(s, m, q, v):
        s.mem[m] = z3.Store(s.mem[m], q.obj, z3.Store(s.mem[m][q.obj], q.off, v))
        if s.stores is not None:
            s.stores.append((m, q.obj, q.off, v))


def inrange(v, w):
    return z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1)))


class Ctx:
    """what a contract sees: entry state, arguments and, in a postcondition, exit state and result"""

    def __init__(c, eng, st0, a, st1=None, ret=None, mod=None):
        c.eng, c.s0, c.a, c.s1, c.ret = eng, st0, a, st1, ret
        c.mod = mod or (eng.mod if eng else None)
        c.local = {}

    def off(c, ty, field):
        return c.eng.offset(ty, field)[0]

    def fw(c, ty, field):
        o, z = c.eng.offset(ty, field)
        return o, z * 8


class Contract:
    """A contract.  Every component is a function of a Ctx.

    pre      -> [(label, formula)]
    post     -> [(label, formula)]
    cells    -> [(width, Ptr)]   memory cells the function may change
    regions  -> {map: lambda obj, off: formula}  further locations it may change
    ghosts   -> names of ghost variables it may change
    aborts   -> formula: the function terminates the program exactly when it holds
    invs     -> lambda LoopCtx: [(label, formula)] loop invariant candidates
    axioms   -> definitional axioms of the spec functions used
    """

    def __init__(s, name, **k):
        s.name = name
        s.pre = s.post = s.cells = s.regions = s.aborts = s.invs = s.axioms = s.setup = s.ghostpost = None
        s.ghosts = ()
        s.sizes = False          # may change the set of allocated objects
        s.maps = ()              # maps that may change arbitrarily (frame given by post)
        s.opaque = False
        s.noabort_check = False
        s.pure = False
        s.custom = None
        s.trusted = None
        s.frameless = False
        s.covers = None
        for a, b in k.items():
            setattr(s, a, b)


class Obl:
    __slots__ = ('label', 'ok', 'time', 'backend', 'why', 'line', 'model')

    def __init__(s, label, ok, t, backend, why=None, line=0, model=None):
        s.label, s.ok, s.time, s.backend, s.why, s.line, s.model = label, ok, t, backend, why, line, model


class LoopCtx:
    pass


class Program:
    """all modules, compiled from /repo"""

    def __init__(p, mods):
        p.mods = mods
        p.funcs = {}
        for m in mods.values():
            for f in m.funcs.values():
                if not f.internal:
                    p.funcs[f.name] = f

    def find(p, name, mod=None):
        if mod is not None and name in mod.funcs:
            return mod.funcs[name]
        return p.funcs.get(name)

    def findglobal(p, name, mod):
        g = mod.globals.get(name)
        if g and g[1] is not None:
            return mod, g
        for m in p.mods.values():
            g = m.globals.get(name)
            if g and g[1] is not None and not g[3]:
                return m, g
        return mod, mod.globals.get(name)


_hoist = {}
_hconst = {}


def hoist(f, eqs):
    """names the stored-to arrays that occur in triggers (E-matching cannot see through array updates);
    f with the names, whose defining equations go to eqs"""
    k = f.get_id()
    r = _hoist.get(k)
    if r is None:
        ts = {}
        seen = set()
        todo = [f]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                for i in range(x.num_patterns()):
                    _ground(x.pattern(i), ts)
                todo.append(x.body())
            elif z3.is_app(x):
                todo.extend(x.children())
        subs = []
        for t in ts.values():
            i = t.get_id()
            if i not in _hconst:
                _hconst[i] = (t, z3.Const('hoist!%d' % len(_hconst), t.sort()))
            subs.append(_hconst[i])
        r = _hoist[k] = (f, z3.substitute(f, *subs) if subs else f, [(i.get_id(), c == i) for i, c in subs])
    for i, q in r[2]:
        eqs[i] = q
    return r[1]


def _ground(p, ts):
    """the maximal closed array terms of a trigger that are built with updates or case distinctions"""
    def closed(x):
        st = [x]
        while st:
            y = st.pop()
            if z3.is_var(y):
                return False
            st.extend(y.children())
        return True

    def built(x):
        st = [x]
        while st:
            y = st.pop()
            if z3.is_app(y):
                if y.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE):
                    return True
                st.extend(y.children())
        return False
    todo = [p]
    while todo:
        x = todo.pop()
        if not z3.is_app(x):
            continue
        if z3.is_array(x) and closed(x):
            if built(x):
                ts[x.get_id()] = x
            continue
        todo.extend(x.children())


class Engine:
    def __init__(e, prog, contracts, opts=None):
        e.prog = prog
        e.contracts = contracts
        e.opts = opts or {}
        e.obls = []
        e.muted = 0
        e.gid = {}
        e.gname = {}
        e.nalloca = 0
        e.axioms = [TT_AXIOM]
        e.mod = None
        e.timeout = e.opts.get('timeout', 10000)
        e.solver_time = 0.0
        e.queries = 0
        e.inlined = set()
        e.used = set()
        e.invcache = {}
        e.root = None
        e.deadline = e.opts.get('deadline')
        e.depth = 0
        e.externs = {}
        e.pathcount = 0
        e.loopstack = []
        e.constglobals = set()

    # -------------------------------------------------------- struct layout
    def offset(e, ty, field):
        err = None
        for m in [e.mod] + [x for x in e.prog.mods.values()]:
            if m is None:
                continue
            try:
                return m.field_offset(ty, field)
            except KeyError as x:
                err = x
        raise Unsupported('no field %s' % err)

    def sizeof(e, ty):
        for m in e.prog.mods.values():
            try:
                return m.struct_size(ty)
            except KeyError:
                pass
        raise Unsupported('no type ' + ty)

    # -------------------------------------------------------- globals
    def globptr(e, name, mod):
        # internal globals are per module
        f = e.prog.find(name, mod)
        if f is not None or name in mod.decls:
            key = ('fn', name if not (f and f.internal) else (mod.src, name))
        else:
            m, g = e.prog.findglobal(name, mod)
            key = ('g', (m.src, name) if g and g[3] else name)
        if key not in e.gid:
            e.gid[key] = -(len(e.gid) + 1)
            e.gname[e.gid[key]] = (key[0], name, mod)
        return Ptr(e.gid[key], 0)

    # -------------------------------------------------------- solving
    def mk(e, timeout, auto=False, seed=0, kind='tactic'):
        s = z3.SimpleSolver() if kind == 'simple' else z3.Solver()
        s.set('timeout', 4 * timeout)
        s.set('rlimit', RL * timeout)          # deterministic limit; the time limit is only a backstop
        s.set('auto_config', auto)
        s.set('smt.mbqi', False)
        if e.opts.get('seed') or seed:
            s.set('smt.random_seed', e.opts.get('seed', 0) + seed)
        return s

    def check(e, facts, timeout, auto=False, seed=0, kind='simple'):
        s = e.mk(timeout, auto, seed, kind)
        eqs = {}
        for a in e.axioms:
            s.add(hoist(a, eqs))
        for f in facts:
            s.add(hoist(f, eqs))
        for q in eqs.values():
            s.add(q)
        t = time.time()
        if e.__dict__.get('predump'):
            open('/tmp/pre.smt2', 'w').write(s.to_smt2())
        r = s.check()
        if os.environ.get('VC_RL') and time.time()-t>0.3:
            st=s.statistics(); d={k:st.get_key_value(k) for k in st.keys()}
            print('RL', round(time.time()-t,2), timeout, r, d.get('rlimit count'), int(d.get('rlimit count',0)/(time.time()-t)), flush=True)
        e.solver_time += time.time() - t
        e.queries += 1
        return r, s

    def valid(e, facts, claim, timeout=None):
        if z3.is_true(claim):
            return True
        fs = list(facts) + [z3.Not(claim)]
        for auto, kind in ((False, 'simple'), (False, 'tactic'), (True, 'tactic')):
            r, s = e.check(fs, timeout or e.timeout, auto, 0, kind)
            if r != z3.unknown:
                break
        return r == z3.unsat

    def feasible(e, st, cond):
        c = z3.simplify(cond)
        if z3.is_false(c):
            return False
        if z3.is_true(c):
            return True
        r, _ = e.check(st.pc + [cond], e.opts.get('feas', 600))
        return r != z3.unsat

    def oblige(e, st, claim, label, ins=None):
        """a proof obligation"""
        if e.muted:
            st.assume(claim)
            return
        line = e.root_mod.line(ins.dbg) if ins is not None and ins.dbg else 0
        full = '%s: %s%s' % (e.rootname, label, (' @line %d' % line) if line else '')
        c = z3.simplify(claim)
        if z3.is_true(c):
            e.obls.append(Obl(full, True, 0, 'simplify', line=line))
            return
        if e.deadline and time.time() > e.deadline:
            e.obls.append(Obl(full, False, 0, 'none', why='time budget exhausted', line=line))
            st.assume(claim)
            return
        t = time.time()
        if os.environ.get('VC_SAVE') and os.environ['VC_SAVE'] in label:
            _s = z3.Solver()
            for a in list(e.axioms) + st.pc + [z3.Not(claim)]:
                _s.add(a)
            open('/tmp/save_%d.smt2' % len(e.obls), 'w').write(_s.to_smt2())
        # proof search is heavy-tailed: several short attempts with different seeds come before a long one
        r = None
        for lim, auto, seed, kind in e.opts.get('ladder', LADDER):
            r2, s2 = e.check(st.pc + [z3.Not(claim)], int(e.timeout * lim), auto, seed, kind)
            if r is None or r2 != z3.unknown:
                r, s = r2, s2
            if r == z3.unsat or r == z3.sat:
                break
            if 'incomplete' in s2.reason_unknown() and seed > 1:
                break
        backend = 'z3'
        why = None
        model = None
        if r != z3.unsat:
            why = 'sat' if r == z3.sat else s.reason_unknown()
            try:
                model = e.show_model(s, st)
            except Exception:
                model = None
            # second attempt with different settings
            for cfg in e.opts.get('retries', ({'smt.random_seed': 7, 'smt.arith.solver': 2}, {'smt.mbqi': True})):
                s2 = e.mk(e.timeout)
                for k, v in cfg.items():
                    s2.set(k, v)
                for a in e.axioms:
                    s2.add(a)
                for f in st.pc:
                    s2.add(f)
                s2.add(z3.Not(claim))
                t1 = time.time()
                r2 = s2.check()
                e.solver_time += time.time() - t1
                e.queries += 1
                if r2 == z3.unsat:
                    r = r2
                    backend = 'z3(retry)'
                    break
                if r2 == z3.sat:
                    why = 'sat'
                    try:
                        model = e.show_model(s2, st)
                    except Exception:
                        pass
                    break
            if r != z3.unsat and e.opts.get('cvc5', True) and why != 'sat':
                if e.cvc5(st.pc, claim):
                    r = z3.unsat
                    backend = 'cvc5'
            if r != z3.unsat and e.opts.get('dump'):
                fn = os.path.join(e.opts['dump'], '%s_%d.smt2' % (e.rootname.replace(':', '_').replace('/', '_'), len(e.obls)))
                with open(fn, 'w') as fh:
                    fh.write(s.to_smt2())
                why += ' dumped ' + fn
        ok = r == z3.unsat
        e.obls.append(Obl(full, ok, time.time() - t, backend if ok else 'z3', why=None if ok else why, line=line,
                          model=None if ok else model))
        st.assume(claim)

    def cvc5(e, facts, claim):
        import subprocess, tempfile
        try:
            s = z3.Solver()
            for a in e.axioms:
                s.add(a)
            for f in facts:
                s.add(f)
            s.add(z3.Not(claim))
            txt = '(set-logic ALL)\n' + '\n'.join(l for l in s.to_smt2().split('\n') if not l.startswith('(set-info'))
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
                fh.write(txt)
            t = time.time()
            try:
                o = subprocess.run(['cvc5', '--tlimit=%d' % e.opts.get('cvc5_ms', 8000), fh.name], capture_output=True, text=True,
                                   timeout=60).stdout
            finally:
                os.unlink(fh.name)
            e.solver_time += time.time() - t
            e.queries += 1
            return o.strip().startswith('unsat')
        except Exception:
            return False

    def show_model(e, s, st):
        m = s.model()
        out = []
        for d in m.decls():
            if d.arity() == 0 and d.range() in (I, z3.BoolSort()) and len(out) < 60:
                out.append('%s=%s' % (d.name(), m[d]))
        return ' '.join(sorted(out))[:3000]

    # -------------------------------------------------------- arithmetic
    def mul(e, st, a, b):
        a, b = z3.simplify(a), z3.simplify(b)
        if z3.is_int_value(a) or z3.is_int_value(b):
            return z3.simplify(a * b)
        r = mulF(a, b)
        if st is not None:
            st.assume(*mulfacts(a, b))
        return r

    def sdivrem(e, st, op, a, b, ins):
        b = z3.simplify(b)
        if z3.is_int_value(b) and b.as_long() > 0:
            k = b.as_long()
            q = z3.If(a >= 0, a / k, -((-a) / k))
            return q if op == 'div' else a - k * q
        q, m = divF(a, b), modF(a, b)
        st.assume(*divfacts(a, b))
        return q if op == 'div' else m

    # -------------------------------------------------------- values
    def val(e, st, ty, v, mod):
        k = v[0]
        if k == 'reg':
            if v[1] not in st.env:
                raise Unsupported('undefined register %' + v[1])
            return st.env[v[1]]
        if k == 'int':
            if ty.k == 'int' and ty.a == 1:
                return z3.BoolVal(bool(v[1]))
            return IV(v[1])
        if k == 'null':
            return NULL
        if k == 'zero':
            return NULL if ty.k == 'ptr' else IV(0)
        if k == 'glob':
            return e.globptr(v[1], mod)
        if k == 'undef':
            if ty.k == 'ptr':
                return Ptr(fresh('undef'), fresh('undef'))
            if ty.k == 'int' and ty.a == 1:
                return fresh('undef', z3.BoolSort())
            return fresh('undef')
        if k == 'float':
            return z3.Const('flt:' + v[1], I)
        if k == 'cgep':
            vs = [(t, e.val(st, t, x, mod)) for t, x in v[2]]
            return e.gep(st, v[1], vs, mod)
        if k == 'ccast':
            x = e.val(st, v[2], v[3], mod)
            return e.cast(st, v[1], v[2], x, v[4])
        if k == 'cbin':
            a = e.val(st, *v[2][0], mod)
            b = e.val(st, *v[2][1], mod)
            return {'add': a + b, 'sub': a - b, 'mul': a * b}[v[1]]
        raise Unsupported('value ' + k)

    def gep(e, st, bt, vs, mod):
        p = vs[0][1]
        off = p.off + mod.tt.size(bt) * vs[1][1]
        t = bt
        for ty, v in vs[2:]:
            if t.k == 'named':
                t = mod.tt.named[t.a]
            if t.k == 'struct':
                o, t = mod.tt.field(t, z3.simplify(v).as_long())
                off = off + o
            elif t.k == 'arr':
                t = t.b
                off = off + mod.tt.size(t) * v
            else:
                raise Unsupported('gep')
        return Ptr(p.obj, z3.simplify(off))

    def cast(e, st, op, ft, x, tt):
        if op == 'ptrtoint':
            o = z3.simplify(x.obj)
            if z3.is_int_value(o) and o.as_long() == 0:
                return x.off
            v = addrF(x.obj) + x.off
            st.assume(addrF(IV(0)) == 0)
            st.assume(inrange(v, 64))
            return v
        if op == 'inttoptr':
            v = z3.simplify(x)
            if z3.is_int_value(v):
                return Ptr(0, v)
            return Ptr(IV(0), v)
        if op == 'bitcast':
            return x
        if op == 'zext':
            if ft.a == 1:
                return z3.If(x, IV(1), IV(0))
            x2 = z3.simplify(x)
            if z3.is_int_value(x2):
                return IV(x2.as_long() % (1 << ft.a))
            return z3.If(x >= 0, x, x + (1 << ft.a))
        if op == 'sext':
            if ft.a == 1:
                return z3.If(x, IV(-1), IV(0))
            return x
        if op == 'trunc':
            w = tt.a
            if w == 1:
                return x % 2 == 1
            h = 1 << (w - 1)
            v = z3.simplify(x)
            if z3.is_int_value(v):
                return IV((v.as_long() + h) % (2 * h) - h)
            return z3.If(inrange(x, w), x, (x + h) % (2 * h) - h)
        if op in fcast:
            return fcast[op](x)
        raise Unsupported('cast ' + op)

    # -------------------------------------------------------- memory with obligations
    def access(e, st, p, n, what, ins):
        e.oblige(st, z3.And(p.off >= 0, p.off + n <= st.size[p.obj]), 'memory: %s within live storage' % what, ins)

    def load(e, st, ty, p, ins, mod):
        n = mod.tt.size(ty)
        o = z3.simplify(p.obj)
        if z3.is_int_value(o) and o.as_long() in e.gname and e.gname[o.as_long()][0] == 'g':
            r = e.constload(st, ty, o.as_long(), p)
            if r is not None:
                return r
        e.access(st, p, n, 'read', ins)
        if ty.k == 'ptr':
            r = st.ld('p', p)
            return Ptr(z3.simplify(r.obj), z3.simplify(r.off))
        if ty.k == 'f':
            return st.ld('f', p)
        if ty.k == 'int':
            w = ty.a
            if w == 1:
                w = 8
            v = z3.simplify(st.ld(w, p))
            if not z3.is_int_value(v):
                st.assume(inrange(v, w))
            return v
        raise Unsupported('load %r' % ty)

    def constload(e, st, ty, gid, p):
        """load from a constant global at a constant offset"""
        kind, name, mod = e.gname[gid]
        m, g = e.prog.findglobal(name, mod)
        if name == 'stderr' or name == 'stdout':
            return Ptr(gid, 1)
        if not g or g[1] is None or not (g[2] or e.neverstored(m, name, g)):
            return None
        off = z3.simplify(p.off)
        if not z3.is_int_value(off):
            return None
        r = e.initat(m, g[0], g[1], off.as_long(), ty)
        return r

    def neverstored(e, m, name, g):
        """an internal global whose address is only ever loaded from keeps its initial value"""
        if not g[3]:
            return False
        if not hasattr(m, '_escaping'):
            esc = set()

            def walk(v):
                if v[0] == 'glob':
                    esc.add(v[1])
                elif v[0] == 'cgep':
                    for t, x in v[2]:
                        walk(x)
                elif v[0] == 'ccast':
                    walk(v[3])
                elif v[0] == 'cbin':
                    for t, x in v[2]:
                        walk(x)
                elif v[0] == 'agg':
                    for t, x in v[1]:
                        walk(x)
            for f in m.funcs.values():
                for b in f.order:
                    for ins in f.blocks[b]:
                        if ins.op == 'phi':
                            for v, _ in ins.x:
                                walk(v)
                        for t, v in (ins.args or []):
                            if ins.op == 'load' and v[0] == 'glob':
                                continue
                            if v is not None:
                                walk(v)
            for n, gg in m.globals.items():
                if gg[1] is not None:
                    walk(gg[1])
            m._escaping = esc
        return name not in m._escaping

    def conststr(e, p):
        """the bytes of a constant string at p, without terminator, or None"""
        o, f = z3.simplify(p.obj), z3.simplify(p.off)
        if not (z3.is_int_value(o) and z3.is_int_value(f)) or o.as_long() not in e.gname:
            return None
        kind, name, mod = e.gname[o.as_long()]
        if kind != 'g':
            return None
        m, g = e.prog.findglobal(name, mod)
        if not g or g[1] is None or not (g[2] or e.neverstored(m, name, g)):
            return None
        if g[1][0] == 'zero':
            return b''
        if g[1][0] != 'bytes':
            return None
        b = bytes(g[1][1])[f.as_long():]
        return b[:b.index(0)] if 0 in b else None

    def initat(e, m, ty, init, off, want):
        if ty.k == 'named':
            ty = m.tt.named[ty.a]
        if init[0] == 'zero':
            return NULL if want.k == 'ptr' else IV(0)
        if init[0] == 'bytes':
            if want.k == 'int' and want.a == 8:
                b = init[1][off]
                return IV(b - 256 if b > 127 else b)
            return None
        if ty.k == 'arr' and init[0] == 'agg':
            s = m.tt.size(ty.b)
            i = off // s
            if i >= ty.a:
                return None
            return e.initat(m, ty.b, init[1][i][1], off - i * s, want)
        if ty.k == 'struct' and init[0] == 'agg':
            for i in range(len(ty.a)):
                o, ft = m.tt.field(ty, i)
                if o <= off < o + m.tt.size(ft):
                    return e.initat(m, ft, init[1][i][1], off - o, want)
            return None
        if off != 0 or ty.k != want.k:
            return None
        return e.val(None, ty, init, m)

    def store(e, st, ty, v, p, ins, mod):
        n = mod.tt.size(ty)
        e.access(st, p, n, 'write', ins)
        if ty.k == 'ptr':
            st.put('p', p, v)
        elif ty.k == 'f':
            st.put('f', p, v)
        elif ty.k == 'int':
            w = ty.a
            if w == 1:
                v = z3.If(v, IV(1), IV(0))
                w = 8
            st.put(w, p, v)
        else:
            raise Unsupported('store %r' % ty)

    # -------------------------------------------------------- straight-line instructions
    def step(e, st, ins, fn):
        """executes a non-control instruction; returns list of states"""
        mod = fn.mod
        op = ins.op
        if op == 'unsupported':
            raise Unsupported(ins.x)
        if op == 'alloca':
            e.nalloca += 1
            o = ALLOCA_HI - e.nalloca
            n = IV(mod.tt.size(ins.ty))
            if ins.args:
                c = e.val(st, *ins.args[0], mod)
                n = n * c
            st.size = z3.Store(st.size, IV(o), n)
            st.env[ins.res] = Ptr(o, 0)
            st.newobjs.append(IV(o))
            return [st]
        if op == 'load':
            p = e.val(st, *ins.args[0], mod)
            st.env[ins.res] = e.load(st, ins.ty, p, ins, mod)
            return [st]
        if op == 'store':
            v = e.val(st, *ins.args[0], mod)
            p = e.val(st, *ins.args[1], mod)
            e.store(st, ins.args[0][0], v, p, ins, mod)
            return [st]
        if op == 'getelementptr':
            vs = [(t, e.val(st, t, v, mod)) for t, v in ins.args]
            st.env[ins.res] = e.gep(st, ins.ty, vs, mod)
            return [st]
        if op in ir.CAST:
            st.env[ins.res] = e.cast(st, op, ins.args[0][0], e.val(st, *ins.args[0], mod), ins.ty)
            return [st]
        if op in ir.BIN:
            st.env[ins.res] = e.binop(st, ins, mod)
            return [st]
        if op == 'icmp':
            st.env[ins.res] = e.icmp(st, ins, mod)
            return [st]
        if op == 'fcmp':
            st.env[ins.res] = fresh('fcmp', z3.BoolSort())
            return [st]
        if op == 'select':
            c, a, b = [e.val(st, *x, mod) for x in ins.args]
            if isinstance(a, Ptr) and e.opts.get('forksel'):
                if not e.feasible(st, z3.Not(c)):
                    b = a
                elif not e.feasible(st, c):
                    a = b
                else:
                    s2 = st.copy()
                    s2.assume(z3.Not(c))
                    s2.env[ins.res] = b
                    st.assume(c)
                    st.env[ins.res] = a
                    return [st, s2]
                st.env[ins.res] = a
                return [st]
            st.env[ins.res] = pite(c, a, b) if isinstance(a, Ptr) else z3.If(c, a, b)
            return [st]
        if op == 'freeze':
            st.env[ins.res] = e.val(st, *ins.args[0], mod)
            return [st]
        if op == 'call':
            e.curfn = fn
            return e.call(st, ins, fn)
        raise Unsupported('instruction ' + op)

    def binop(e, st, ins, mod):
        op = ins.op
        a = e.val(st, *ins.args[0], mod)
        b = e.val(st, *ins.args[1], mod)
        if op in fbin:
            return fbin[op](a, b)
        w = ins.ty.a
        if w == 1:
            return {'and': lambda: z3.And(a, b), 'or': lambda: z3.Or(a, b), 'xor': lambda: z3.Xor(a, b)}[op]()
        if op in ('add', 'sub', 'mul', 'shl'):
            if op == 'add':
                r = z3.simplify(a + b)
            elif op == 'sub':
                r = z3.simplify(a - b)
            elif op == 'mul':
                r = e.mul(st, a, b)
            else:
                k = z3.simplify(b)
                if not z3.is_int_value(k):
                    raise Unsupported('shift by variable')
                r = z3.simplify(a * (1 << k.as_long()))
                st.env[('shl', r.get_id())] = k.as_long()
                st.env[('keep', r.get_id())] = r
            e.oblige(st, inrange(r, w), 'arithmetic: %s result representable in %d bits' % (op, w), ins)
            return r
        if op in ('sdiv', 'srem'):
            e.oblige(st, b != 0, 'arithmetic: divisor nonzero', ins)
            return e.sdivrem(st, op[1:], a, b, ins)
        if op in ('udiv', 'urem'):
            e.oblige(st, z3.And(b != 0), 'arithmetic: divisor nonzero', ins)
            e.oblige(st, z3.And(a >= 0, b > 0), 'arithmetic: unsigned division of non-negative values', ins)
            return e.sdivrem(st, 'div' if op == 'udiv' else 'rem', a, b, ins)
        k = z3.simplify(b)
        if op == 'ashr' and z3.is_int_value(k):
            return a / (1 << k.as_long())
        if op == 'lshr' and z3.is_int_value(k):
            return z3.If(a >= 0, a, a + (1 << w)) / (1 << k.as_long())
        if op == 'and':
            for x, y in ((a, z3.simplify(b)), (b, z3.simplify(a))):
                if z3.is_int_value(y):
                    m = y.as_long()
                    if m >= 0 and (m & (m + 1)) == 0:
                        return x % (m + 1)
                    if m == -1:
                        return x
            return bandF(a, b)
        if op == 'or':
            r = borF(a, b)
            for x, y in ((a, b), (b, a)):
                sh = st.env.get(('shl', z3.simplify(x).get_id()))
                xs = z3.simplify(x)
                if sh is None and z3.is_int_value(xs) and xs.as_long() != 0:
                    v = xs.as_long()
                    sh = (v & -v).bit_length() - 1
                if sh is not None and sh > 0:
                    if e.valid(st.pc, z3.And(y >= 0, y < (1 << sh)), 1000):
                        return z3.simplify(x + y)
                    st.assume(z3.Implies(z3.And(y >= 0, y < (1 << sh)), r == x + y))
                st.assume(z3.Implies(y == 0, r == x))
            st.assume(inrange(r, w))
            st.assume((r != 0) == z3.Or(a != 0, b != 0))
            return r
        if op == 'xor':
            if z3.is_int_value(k) and k.as_long() == -1:
                return -a - 1
            r = bxorF(a, b)
            st.assume((r == 0) == (a == b))
            st.assume(inrange(r, w))
            return r
        raise Unsupported(op)

    def icmp(e, st, ins, mod):
        a = e.val(st, *ins.args[0], mod)
        b = e.val(st, *ins.args[1], mod)
        p = ins.x
        if isinstance(a, Ptr):
            if p == 'eq':
                return a.eq(b)
            if p == 'ne':
                return z3.Not(a.eq(b))
            e.oblige(st, a.obj == b.obj, 'pointer comparison within one object', ins)
            a, b = a.off, b.off
            p = p.replace('u', 's')
        if z3.is_bool(a):
            r = a == b
            return r if p == 'eq' else z3.Not(r)
        if p == 'eq':
            return a == b
        if p == 'ne':
            return a != b
        if p[0] == 's':
            return {'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[p]
        if p in ('ugt', 'uge'):
            a, b = b, a
            p = {'ugt': 'ult', 'uge': 'ule'}[p]
        lt = a < b if p == 'ult' else a <= b
        return z3.If((a >= 0) == (b >= 0), lt, a >= 0)

    # -------------------------------------------------------- calls
    def call(e, st, ins, fn):
        mod = fn.mod
        args = []
        for t, v in ins.args:
            if t.k == 'metadata':
                args.append(None)
            else:
                args.append(e.val(st, t, v, mod))
        if ins.x[0] == 'glob':
            name = ins.x[1]
        else:
            p = st.env[ins.x[1]]
            o = z3.simplify(p.obj)
            if z3.is_int_value(o) and o.as_long() in e.gname and e.gname[o.as_long()][0] == 'fn':
                _, name, mod = e.gname[o.as_long()]
            else:
                h = e.root.__dict__.get('fnptr')
                if h is None:
                    raise Unsupported('indirect call')
                return e.finish_call(st, ins, h(e, st, p, args, ins))
        return e.finish_call(st, ins, e.call_named(st, name, args, ins, mod))

    def finish_call(e, st, ins, outs):
        res = []
        for s, r in outs:
            if ins.res is not None:
                s.env[ins.res] = r
            res.append(s)
        return res

    def call_named(e, st, name, args, ins, mod):
        from . import builtins as bi
        k = e.contracts.get(name)
        callee = e.prog.find(name, mod)
        if k is not None and callee is not None and k.__dict__.get('nargs') is not None and k.nargs != len(args):
            k = None
        if k is not None:
            e.used.add(name)
            if k.custom:
                return k.custom(e, st, args, ins)
            return e.apply(st, k, args, ins)
        if callee is not None:
            e.inlined.add(name)
            return e.inline(st, callee, args, ins)
        h = bi.BUILTINS.get(name)
        if h is None:
            raise Unsupported('call to external function without contract: ' + name)
        e.externs[name] = e.externs.get(name, 0) + 1
        return h(e, st, args, ins)

    def inline(e, st, callee, args, ins):
        if e.depth > 12:
            raise Unsupported('recursion')
        env = st.env
        st.env = {}
        for (p, _), a in zip(callee.params, args):
            st.env[p] = a
        e.depth += 1
        outs = []
        try:
            rets = e.run(callee, [(callee.entry, None, st)], None, None)[0]
        finally:
            e.depth -= 1
        for s, r in rets:
            s.env = dict(env)
            outs.append((s, r))
        return outs

    def havoc(e, st, c, k):
        """state after a call according to the contract's frame"""
        s1 = st.copy()
        for w, p in (k.cells(c) if k.cells else []):
            if w == 'p':
                s1.put('p', p, Ptr(fresh('hp'), fresh('hf')))
            else:
                v = fresh('hc')
                s1.put(w, p, v)
                if isinstance(w, int):
                    s1.assume(inrange(v, w))
        reg = k.regions(c) if k.regions else {}
        for m, pred in reg.items():
            new = fresh('M%s' % m, A2)
            o, f = z3.Ints('o!q f!q')
            s1.assume(z3.ForAll([o, f], z3.Implies(z3.Not(pred(o, f)), new[o][f] == s1.mem[m][o][f]),
                                patterns=[new[o][f]]))
            s1.mem[m] = new
        for m in k.maps:
            s1.mem[m] = fresh('M%s' % m, A2)
        for g in k.ghosts:
            s1.g[g] = fresh('g_' + g, s1.g[g].sort())
        if k.sizes:
            s1.size = fresh('Size', A1)
            b = fresh('brk')
            s1.assume(b >= s1.brk)
            s1.brk = b
        return s1

    def apply(e, st, k, args, ins):
        c = Ctx(e, st.copy(), args)
        c.callins = ins
        for lab, f in (k.pre(c) if k.pre else []):
            e.oblige(st, f, 'call %s requires %s' % (k.name, lab), ins)
        if k.axioms:
            for f in k.axioms(c):
                st.assume(f)
        c.s0 = st.copy()
        if k.aborts:
            A = k.aborts(c)
            if not z3.is_false(z3.simplify(A)):
                if e.feasible(st, A):
                    s2 = st.copy()
                    s2.assume(A)
                    e.end_abort(s2, 'in ' + k.name, ins)
                st.assume(z3.Not(A))
                if not e.feasible(st, z3.BoolVal(True)) and z3.is_true(z3.simplify(A)):
                    return []
        s1 = e.havoc(st, c, k)
        callee = e.prog.find(k.name, e.root_mod)
        rt = callee.ret if callee else ins.ty
        r = None
        if rt.k == 'ptr':
            r = Ptr(fresh('r_' + k.name), fresh('rf'))
        elif rt.k == 'int':
            r = fresh('r_' + k.name)
            s1.assume(inrange(r, rt.a))
        elif rt.k == 'f':
            r = fresh('r_' + k.name)
        c.s1, c.ret = s1, r
        for lab, f in (k.post(c) if k.post else []):
            s1.assume(f)
        for lab, f in (k.__dict__['callpost'](c) if k.__dict__.get('callpost') else []):
            s1.assume(f)
        return [(s1, r)]

    def end_abort(e, st, why, ins):
        if e.root is None or e.root.noabort_check:
            return
        if e.root.__dict__.get('at_abort'):
            if not e.muted:
                e.root.at_abort(e, e.rootctx, st, why, ins)
            return
        A = e.root.aborts(e.rootctx) if e.root.aborts else z3.BoolVal(False)
        if e.root.__dict__.get('abort_state'):
            for lab, f in e.root.abort_state(e.rootctx, st):
                e.oblige(st, f, 'on termination: ' + lab, ins)
        if e.root.__dict__.get('mayabort'):
            A = z3.Or(A, e.root.mayabort(e.rootctx))
        e.oblige(st, A, 'terminates (%s) only when the specification requires it' % why, ins)

    # -------------------------------------------------------- control flow
    def loopsof(e, fn):
        if not hasattr(fn, '_loops'):
            fn._loops, fn._preds = ir.loops(fn)
        return fn._loops

    def rpo(e, fn):
        if not hasattr(fn, '_rpo'):
            seen, post = set(), []

            def go(b):
                seen.add(b)
                for x in ir.succs(fn, b):
                    if x not in seen:
                        go(x)
                post.append(b)
            go(fn.entry)
            fn._rpo = {b: i for i, b in enumerate(reversed(post))}
        return fn._rpo

    def joined(e, fn, b, pred, st, work):
        """joins the paths that arrive at block b with the same memory: a fresh boolean says which one was taken"""
        same = lambda x, y: x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y))
        others = [w for w in work if w[0] == b and w[1] != '<hdr>']
        if not others or pred == '<hdr>':
            return pred, st

        def enter(pr, s):
            new = {}
            for ins in fn.blocks[b]:
                if ins.op != 'phi':
                    break
                for v, pb in ins.x:
                    if pb == pr:
                        new[ins.res] = e.val(s, ins.ty, v, fn.mod)
                        break
            s.env.update(new)
        done = False
        for w in others:
            s = w[2]
            if not (set(s.mem) == set(st.mem) and all(same(s.mem[m], st.mem[m]) for m in s.mem) and same(s.size, st.size) and same(s.brk, st.brk)
                    and s.g.keys() == st.g.keys() and all(same(s.g[k], st.g[k]) for k in s.g) and len(s.trace) == len(st.trace)
                    and all(x is y for x, y in zip(s.trace, st.trace)) and s.stores is st.stores and len(s.newobjs) == len(st.newobjs)):
                continue
            n = 0
            while n < len(s.pc) and n < len(st.pc) and s.pc[n].eq(st.pc[n]):
                n += 1
            f1, f2 = st.pc[n:], s.pc[n:]
            if any(hasquant(f) for f in f1 + f2):
                continue
            if not done:
                enter(pred, st)
                done = True
            enter(w[1], s)
            z = z3.FreshConst(z3.BoolSort(), 'path')
            env, ok = {}, True
            for k in st.env:
                if k not in s.env:
                    continue
                x, y = st.env[k], s.env[k]
                if isinstance(x, Ptr) != isinstance(y, Ptr):
                    continue
                if isinstance(x, Ptr):
                    env[k] = x if x.obj.eq(y.obj) and x.off.eq(y.off) else pite(z, x, y)
                elif z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort():
                    env[k] = x if x.eq(y) else z3.If(z, x, y)
                elif x is y:
                    env[k] = x
            t = st.copy()
            t.env = env
            t.pc = st.pc[:n] + ([z3.Implies(z, z3.And(*f1))] if f1 else []) + ([z3.Implies(z3.Not(z), z3.And(*f2))] if f2 else [])
            st = t
            work.remove(w)
        return ('<joined>' if done else pred), st

    def run(e, fn, work, region, hdr):
        """explores from the given (block, pred, state) items.
        returns (returns, backedges to hdr, exits from region)"""
        rets, backs, exits = [], [], []
        L = e.loopsof(fn)
        work = list(work)
        merge = e.opts.get('merge')
        order = e.rpo(fn) if merge else None
        while work:
            if merge:
                work.sort(key=lambda w: -order.get(w[0], 0))
            b, pred, st = work.pop()
            if merge and b != hdr and b not in L and (region is None or b in region):
                pred, st = e.joined(fn, b, pred, st, work)
            if e.deadline and time.time() > e.deadline + 60:
                raise Unsupported('time budget exhausted')
            if b == hdr and pred is not None and pred != '<hdr>':
                backs.append((pred, st))
                continue
            if region is not None and b not in region:
                exits.append((b, pred, st))
                continue
            if b in L and pred != '<hdr>':
                r2, x2 = e.loop(fn, b, pred, st, L[b])
                rets += r2
                for it in x2:
                    work.append(it)
                continue
            # phis
            blk = fn.blocks[b]
            i = 0
            if pred == '<joined>':
                while blk[i].op == 'phi':
                    i += 1
            elif pred != '<hdr>':
                new = {}
                while blk[i].op == 'phi':
                    for v, pb in blk[i].x:
                        if pb == pred:
                            new[blk[i].res] = e.val(st, blk[i].ty, v, fn.mod)
                            break
                    i += 1
                st.env.update(new)
            else:
                while blk[i].op == 'phi':
                    i += 1
            states = [st]
            for ins in blk[i:]:
                if ins.op in ('br', 'switch', 'ret', 'unreachable'):
                    for s in states:
                        if ins.op == 'ret':
                            rets.append((s, e.val(s, *ins.args[0], fn.mod) if ins.args else None))
                        elif ins.op == 'unreachable':
                            pass
                        elif ins.op == 'br':
                            if not ins.args:
                                work.append((ins.x[0], b, s))
                            else:
                                c = e.val(s, *ins.args[0], fn.mod)
                                f1 = e.feasible(s, c)
                                f2 = e.feasible(s, z3.Not(c))
                                if f1 and f2:
                                    s2 = s.copy()
                                    s2.assume(z3.Not(c))
                                    work.append((ins.x[1], b, s2))
                                    s.assume(c)
                                    work.append((ins.x[0], b, s))
                                    e.pathcount += 1
                                elif f1:
                                    s.assume(c)
                                    work.append((ins.x[0], b, s))
                                elif f2:
                                    s.assume(z3.Not(c))
                                    work.append((ins.x[1], b, s))
                        else:
                            v = e.val(s, *ins.args[0], fn.mod)
                            neg = []
                            byt = {}
                            for cv, t in ins.x[1]:
                                byt.setdefault(t, []).append(v == cv)
                                neg.append(v != cv)
                            for t, cs in byt.items():
                                c = z3.Or(*cs)
                                if e.feasible(s, c):
                                    s2 = s.copy()
                                    s2.assume(c)
                                    work.append((t, b, s2))
                            c = z3.And(*neg)
                            if e.feasible(s, c):
                                s2 = s.copy()
                                s2.assume(c)
                                work.append((ins.x[0], b, s2))
                    break
                nxt = []
                for s in states:
                    nxt += e.step(s, ins, fn)
                states = nxt
                if not states:
                    break
        return rets, backs, exits

    # -------------------------------------------------------- loops
    def effects(e, fn, blocks, seen=None):
        """maps / ghosts syntactically possibly written in these blocks"""
        seen = seen if seen is not None else set()
        out = set()
        from . import builtins as bi
        for b in blocks:
            for ins in fn.blocks[b]:
                if ins.op == 'store':
                    t = ins.args[0][0]
                    out |= {'po', 'pf'} if t.k == 'ptr' else {'f'} if t.k == 'f' else {8 if t.a == 1 else t.a}
                elif ins.op == 'alloca':
                    out.add('size')
                elif ins.op == 'call':
                    if ins.x[0] != 'glob':
                        out |= set(e.root.__dict__.get('fnptr_effects', ()))
                        continue
                    name = ins.x[1]
                    if name in e.contracts:
                        k = e.contracts[name]
                        if k.custom:
                            out |= set(k.__dict__.get('effects', ()))
                            continue
                        for x in k.__dict__.get('effects', ()):
                            out.add(x)
                        out |= set(k.maps) | {('g', g) for g in k.ghosts}
                        if k.sizes:
                            out.add('size')
                        continue
                    f2 = e.prog.find(name, fn.mod)
                    if f2 is not None:
                        if f2.name not in seen:
                            seen.add(f2.name)
                            out |= e.effects(f2, f2.order, seen)
                    else:
                        out |= set(bi.EFFECTS.get(name, ())) | set(bi.typed(e, fn, name, ins.args))
        return out

    def trips(e, fn, body, phis, aff):
        """whether a loop counts through at most four constants (it is then executed, not cut)"""
        inits = {ins.res: init for ins, init in phis}
        for b in body:
            for i in fn.blocks[b]:
                if i.op != 'icmp' or i.ty.k != 'int':
                    continue
                x, y = i.args[0][1], i.args[1][1]
                if x[0] == 'int':
                    x, y = y, x
                if y[0] != 'int' or x[0] != 'reg':
                    continue
                d = e.defof(fn, x[1])
                if d is not None and d.op in ('sext', 'zext') and d.args[0][1][0] == 'reg':
                    x = d.args[0][1]
                if x[1] not in aff:
                    d = e.defof(fn, x[1])
                    if d is None or d.op != 'add' or d.args[0][1][0] != 'reg':
                        continue
                    x = d.args[0][1]
                if x[1] in aff and z3.is_expr(inits[x[1]]) and z3.is_int_value(z3.simplify(inits[x[1]])):
                    if abs(y[1] - z3.simplify(inits[x[1]]).as_long()) <= 4 * abs(aff[x[1]]) and any(
                            t not in body for t in ir.succs(fn, b)):
                        return True
        return False

    def unrolled(e, fn, h, pred, st, body):
        """executes a loop whose trip count is a small constant"""
        rets, exits, todo = [], [], [(pred, st)]
        for k in range(7):
            nxt = []
            for pb, s in todo:
                new = {}
                for ins in fn.blocks[h]:
                    if ins.op != 'phi':
                        break
                    for v, q in ins.x:
                        if q == pb:
                            new[ins.res] = e.val(s, ins.ty, v, fn.mod)
                s.env.update(new)
                r, bk, x = e.run(fn, [(h, '<hdr>', s)], body, h)
                rets += r
                exits += x
                nxt += bk
            todo = nxt
            if not todo:
                return rets, exits
        return None

    def loop(e, fn, h, pred, st, body):
        """verifies one loop; returns (returns, exit items)"""
        phis = []
        for ins in fn.blocks[h]:
            if ins.op != 'phi':
                break
            init = None
            for v, pb in ins.x:
                if pb == pred:
                    init = e.val(st, ins.ty, v, fn.mod)
            phis.append((ins, init))
        t = fresh('t')
        # affine phis
        aff = {}
        for ins, init in phis:
            c = e.affine(fn, ins, body)
            if c is not None:
                aff[ins.res] = c
        if e.trips(fn, body, phis, aff):
            r = e.unrolled(fn, h, pred, st.copy(), body)
            if r is not None:
                return r
        sym = {}          # phis with a loop-invariant step that is not a constant
        wrap = {}         # phis whose next value is a function of the iteration number alone
        eff = e.effects(fn, body)
        entry = st.copy()
        key = (fn.mod.src, fn.name, h)
        saved_n = e.nalloca

        # discovery run: which objects are written
        def havocked(objs):
            s = entry.copy()
            s.assume(t >= 0)
            freshsyms = [t]
            vals = {}
            for ins, init in phis:
                if ins.res in aff:
                    cst = aff[ins.res]
                    if isinstance(init, Ptr):
                        vals[ins.res] = Ptr(init.obj, z3.simplify(init.off + cst * t))
                    else:
                        vals[ins.res] = z3.simplify(init + cst * t)
                        if ins.ty.k == 'int':
                            s.assume(inrange(vals[ins.res], ins.ty.a))
                elif ins.res in sym:
                    d = sym[ins.res]
                    s.assume(*(mulfacts(t, d) + mulfacts(t + 1, d)))
                    if isinstance(init, Ptr):
                        vals[ins.res] = Ptr(init.obj, init.off + mulF(t, d))
                    else:
                        vals[ins.res] = init + mulF(t, d)
                        s.assume(inrange(vals[ins.res], ins.ty.a))
                elif ins.res in wrap:
                    n = wrap[ins.res]
                    prev = lambda x: z3.substitute(x, (t, t - 1))
                    vals[ins.res] = pite(t == 0, init, Ptr(prev(n.obj), prev(n.off))) if isinstance(n, Ptr) else z3.If(t == 0, init, prev(n))
                elif ins.ty.k == 'ptr' and isinstance(init, Ptr) and e.samebase(fn, ins, body):
                    b2 = fresh('phi_f')
                    freshsyms.append(b2)
                    vals[ins.res] = Ptr(init.obj, b2)
                elif ins.ty.k == 'ptr':
                    a, b2 = fresh('phi_o'), fresh('phi_f')
                    freshsyms += [a, b2]
                    vals[ins.res] = Ptr(a, b2)
                elif ins.ty.k == 'int' and ins.ty.a == 1:
                    v = fresh('phi', z3.BoolSort())
                    freshsyms.append(v)
                    vals[ins.res] = v
                else:
                    v = fresh('phi')
                    freshsyms.append(v)
                    if ins.ty.k == 'int':
                        s.assume(inrange(v, ins.ty.a))
                    vals[ins.res] = v
            s.env.update(vals)
            inner = {}
            for m in eff:
                if m == 'size':
                    s.size = fresh('Size', A1)
                    s.brk = fresh('brk')
                    freshsyms += [s.size, s.brk]
                    s.assume(s.brk >= entry.brk)
                elif isinstance(m, tuple):
                    s.g[m[1]] = fresh('g_' + m[1], s.g[m[1]].sort())
                    freshsyms.append(s.g[m[1]])
                elif objs is not None and m in objs:
                    cur = s.mem[m]
                    for o, offs in objs[m]:
                        if offs is None:
                            a = fresh('A%s' % m, A1)
                            freshsyms.append(a)
                            inner[(m, o.get_id())] = (o, a)
                            cur = z3.Store(cur, o, a)
                            continue
                        a = cur[o]
                        for off in offs:
                            v = fresh('cell')
                            freshsyms.append(v)
                            if isinstance(m, int):
                                s.assume(inrange(v, m))
                            a = z3.Store(a, off, v)
                        cur = z3.Store(cur, o, a)
                    s.mem[m] = cur
                else:
                    s.mem[m] = fresh('M%s' % m, A2)
                    freshsyms.append(s.mem[m])
            return s, vals, inner, freshsyms

        def runbody(s, mute):
            if mute:
                e.muted += 1
            e.loopstack.append((fn.name, h, t))
            try:
                return e.run(fn, [(h, '<hdr>', s)], body, h)
            finally:
                e.loopstack.pop()
                if mute:
                    e.muted -= 1

        memeff = [m for m in eff if m in MAPS]
        objs = {}
        cellinc = {}
        if memeff:
            s, vals, inner, fs = havocked(None)
            s.stores = []
            log = s.stores
            # inner loops are not judged on this run, which assumes nothing
            keep, e.invcache = e.invcache, {}
            runbody(s, True)
            e.invcache = keep
            fsid = {x.get_id() for x in fs}
            bad = set()
            vary = lambda x: any(y.get_id() in fsid for y in consts(x)) or newer(x, t)
            for m, o, f, v in log:
                if m not in memeff:
                    continue
                o = z3.simplify(o)
                if vary(o):
                    bad.add(m)
                elif z3.is_int_value(o) and ALLOCA_HI - e.nalloca <= o.as_long() < ALLOCA_HI - saved_n:
                    continue          # alloca of an inlined callee inside the loop
                else:
                    f = z3.simplify(f)
                    ent = objs.setdefault(m, {}).setdefault(o.get_id(), [o, {}])
                    if v is None or vary(f):
                        ent[1] = None
                    elif ent[1] is not None:
                        ent[1][f.get_id()] = f
                        if isinstance(m, int) and z3.is_expr(v):
                            d = z3.simplify(v - s.mem[m][o][f])
                            if z3.is_int_value(d) and d.as_long() != 0:
                                cellinc.setdefault((m, o.get_id(), f.get_id()), (m, o, f, set()))[3].add(d.as_long())
            for m in memeff:
                if m in bad or m in e.root.__dict__.get('wholemaps', ()):
                    objs.pop(m, None)
                else:
                    objs[m] = [(o, None if fs2 is None else list(fs2.values())) for o, fs2 in objs.get(m, {}).values()]
            e.nalloca = saved_n

        def mklc(s, vals, tt, inner):
            lc = LoopCtx()
            lc.eng, lc.fn, lc.header = e, fn, h
            lc.st, lc.entry, lc.t = s, entry, tt
            lc.phis = vals
            lc.init = {ins.res: init for ins, init in phis}
            lc.nonaff = [ins.res for ins, _ in phis if ins.res not in aff and ins.res not in sym]
            lc.ty = {ins.res: ins.ty for ins, _ in phis}
            lc.aff = aff
            lc.c = e.rootctx
            lc.inner = inner
            lc.objs = objs
            lc.eff = eff
            lc.body = body
            lc.depth = e.depth
            lc.outer = [x[2] for x in e.loopstack if x[0] == fn.name]
            return lc

        bounds = e.bounds(fn, body, phis, aff, entry)

        def cands(s, vals, tt, inner):
            out = []
            for nm, B in bounds:
                x = vals[nm]
                i0 = dict((ins.res, init) for ins, init in phis)[nm]
                cst = aff[nm]
                if isinstance(x, Ptr) != isinstance(B, Ptr):
                    continue
                if isinstance(x, Ptr):
                    x, i0, B = x.off, i0.off, B.off
                if cst > 0:
                    out.append(('%s<=bound%s' % (nm, B), x <= z3.If(i0 <= B, B, i0)))
                    out.append(('%s<bound%s' % (nm, B), x < B))
                else:
                    out.append(('%s>=bound%s' % (nm, B), x >= z3.If(i0 >= B, B, i0)))
                    out.append(('%s>bound%s' % (nm, B), x > B))
                    out.append(('%s>=bound-1%s' % (nm, B), x >= z3.If(i0 >= B, B - 1, i0)))
            if e.root is not None and e.root.invs:
                out += e.root.invs(mklc(s, vals, tt, inner))
            for m, o, f, ds in cellinc.values():
                now, was = s.mem[m][o][f], entry.mem[m][o][f]
                for d in sorted(ds):
                    tag = 'cell %s[%s][%s]' % (m, o, f)
                    out.append(('%s = entry%+d*t' % (tag, d), now == was + d * tt))
                    lo, hi = (was, was + d * tt) if d > 0 else (was + d * tt, was)
                    out.append(('%s between' % tag, z3.And(now >= lo, now <= hi)))
            for ins, _ in phis:
                if ins.ty.k == 'int' and ins.ty.a == 8:
                    out.append(('%s is boolean' % ins.res, z3.And(vals[ins.res] >= 0, vals[ins.res] <= 1)))
            return out

        quick = e.opts.get('inv_ms', 2500)
        # entry check
        s, vals, inner, fs = havocked(objs)
        ivals = {ins.res: init for ins, init in phis}
        einner = {k2: (o, entry.mem[k2[0]][o]) for k2, (o, a) in inner.items()}
        alive = {}
        ec = cands(entry, ivals, IV(0), einner)
        lib = e.invcache.setdefault(key, set())      # candidates already found not to be inductive here
        for lab, f in ec:
            if lab in lib:
                continue
            if lab.startswith('!') or e.valid(entry.pc, f, quick):
                alive[lab] = True
        closed = None
        nowrap, fresh_wrap = set(), False
        tries = 0
        affok = dict(aff)
        while True:
            tries += 1
            s, vals, inner, fs = havocked(objs)
            base = s.copy()
            cl = cands(s, vals, t, inner)
            for lab, f in cl:
                if lab in alive:
                    s.assume(f)
            if closed:
                for key2, fam in closed.items():
                    if key2 in inner:
                        s.assume(e.famfact(fam, inner[key2][1], t))
            e.pending_inv = alive
            rets, backs, exits = runbody(s.copy(), True)
            if closed is None and not sym and not e.opts.get('nosym'):
                fsid = {x.get_id() for x in fs}
                for ins, init in phis:
                    if ins.res not in aff and (ins.ty.k == 'ptr' or ins.ty.k == 'int' and ins.ty.a != 1):
                        d = e.symstep(ins, vals[ins.res], [(pb, bs) for pb, bs in backs], fn, fsid, t)
                        if d is not None:
                            sym[ins.res] = d
                            continue
                        d = e.wrapval(ins, [(pb, bs) for pb, bs in backs], fn, fsid, t) if ins.res not in nowrap and ins.res not in wrap else None
                        if d is not None and isinstance(d, Ptr) == isinstance(init, Ptr):
                            wrap[ins.res] = d
                            fresh_wrap = True
                if sym or fresh_wrap:
                    fresh_wrap = False
                    e.nalloca = saved_n
                    e.invcache = {key: lib}
                    continue
            # closed forms for array fills
            if closed is None:
                closed = {}
                fsid = {x.get_id() for x in fs}
                for key2, (o, a) in inner.items():
                    fam = e.family(key2[0], o, a, [b[1] for b in backs], t, fsid, entry)
                    if fam:
                        closed[key2] = fam
                if closed:
                    e.nalloca = saved_n
                    e.invcache = {key: lib}
                    continue
            drop = []
            for pb, bs in backs:
                nv = {}
                for ins, init in phis:
                    for v, q in ins.x:
                        if q == pb:
                            nv[ins.res] = e.val(bs, ins.ty, v, fn.mod)
                for nm, d in sym.items():
                    if not e.valid(bs.pc, nv[nm].eq(vals[nm] + d) if isinstance(nv[nm], Ptr) else nv[nm] == vals[nm] + d, quick):
                        raise Unsupported('step of %s' % nm)
                for nm, d in list(wrap.items()):
                    if not e.valid(bs.pc, nv[nm].eq(d) if isinstance(d, Ptr) else nv[nm] == d, quick):
                        wrap.pop(nm)
                        nowrap.add(nm)
                        drop.append(nm)
                for nm, cst in list(aff.items()):
                    want = vals[nm] + cst if not isinstance(vals[nm], Ptr) else None
                    ok = e.valid(bs.pc, nv[nm] == want, quick) if want is not None else \
                        e.valid(bs.pc, nv[nm].eq(vals[nm] + cst), quick)
                    if not ok:
                        aff.pop(nm)
                        drop.append(nm)
                for key2, fam in list(closed.items()):
                    o, a = inner[key2]
                    f = fresh('f')
                    now = z3.simplify(bs.mem[key2[0]][o])
                    nf = e.famval(fam, f, t + 1)
                    if not e.valid(bs.pc, now[f] == nf, quick):
                        closed.pop(key2)
                        drop.append(str(key2))
                if drop:
                    break
                binner = {k2: (o, bs.mem[k2[0]][o]) for k2, (o, a) in inner.items()}
                for lab, f in cands(bs, nv, t + 1, binner):
                    if lab in alive and not lab.startswith('!') and not e.valid(bs.pc, f, quick):
                        if os.environ.get('VC_DEBUG'):
                            e.predump = True; rr, ss = e.check(list(bs.pc) + [z3.Not(f)], 10 * quick); e.predump = False
                            print('   drop', fn.name, h, lab, 'retry:', rr, ss.reason_unknown() if rr != z3.unsat else '', flush=True)
                            if os.environ.get('VC_DUMP') and os.environ['VC_DUMP'] in lab:
                                os.replace('/tmp/pre.smt2', '/tmp/drop_%s_%s.smt2' % (h, len(drop)))
                        drop.append(lab)
                        alive.pop(lab, None)
                        lib.add(lab)
            e.nalloca = saved_n
            if not drop:
                break
            if tries > 40:
                raise Unsupported('loop invariants do not stabilise')
        if os.environ.get('VC_DEBUG'):
            print('  loop', fn.name, h, 'depth', e.depth, 'muted', e.muted, 'inv', sorted(alive), 'closed', len(closed), 'objs',
                  {m: [(o, fs2) for o, fs2 in x] for m, x in objs.items()})
        # the invariants that survived are inductive: final run emits obligations and continues
        for lab, f in ec:
            if lab in alive:
                if lab.startswith('!'):
                    e.oblige(entry, f, 'loop invariant holds on entry: ' + lab[1:], fn.blocks[h][-1])
                elif not e.muted:
                    e.obls.append(Obl('%s: loop %s invariant established: %s' % (e.rootname, h, lab), True, 0, 'z3'))
        s, vals, inner, fs = havocked(objs)
        cl = cands(s, vals, t, inner)
        for lab, f in cl:
            if lab in alive:
                s.assume(f)
        for key2, fam in closed.items():
            s.assume(e.famfact(fam, inner[key2][1], t))
        rets, backs, exits = runbody(s, False)
        for pb, bs in backs:
            nv = {}
            for ins, init in phis:
                for v, q in ins.x:
                    if q == pb:
                        nv[ins.res] = e.val(bs, ins.ty, v, fn.mod)
            binner = {k2: (o, bs.mem[k2[0]][o]) for k2, (o, a) in inner.items()}
            for lab, f in cands(bs, nv, t + 1, binner):
                if lab in alive:
                    if lab.startswith('!'):
                        e.oblige(bs, f, 'loop invariant preserved: ' + lab[1:], fn.blocks[h][-1])
                    elif not e.muted:
                        e.obls.append(Obl('%s: loop %s invariant preserved: %s' % (e.rootname, h, lab), True, 0, 'z3'))
        return rets, exits

    def affine(e, fn, phi, body):
        c = None
        for v, pb in phi.x:
            if pb not in body:
                continue
            if v[0] != 'reg':
                return None
            d = e.defof(fn, v[1])
            # follow trivial phis / lcssa
            if d is None:
                return None
            k = None
            if d.op in ('add', 'sub'):
                a, b = d.args[0][1], d.args[1][1]
                if a == ('reg', phi.res) and b[0] == 'int':
                    k = b[1] if d.op == 'add' else -b[1]
                elif b == ('reg', phi.res) and a[0] == 'int' and d.op == 'add':
                    k = a[1]
            elif d.op == 'getelementptr' and d.args[0][1] == ('reg', phi.res) and len(d.args) == 2 and d.args[1][1][0] == 'int':
                k = d.args[1][1][1] * fn.mod.tt.size(d.ty)
            if k is None or (c is not None and c != k):
                return None
            c = k
        return c

    def samebase(e, fn, phi, body):
        """every value the pointer takes in the loop is the pointer itself moved by some offset: its object never changes"""
        seen = set()

        def ok(v):
            if v[0] != 'reg':
                return False
            if v[1] == phi.res or v[1] in seen:
                return True
            seen.add(v[1])
            d = e.defof(fn, v[1])
            if d is None or not any(d in fn.blocks[b] for b in body):
                return False
            if d.op == 'getelementptr':
                return ok(d.args[0][1])
            if d.op == 'phi':
                return all(ok(x) for x, _ in d.x)
            if d.op == 'select':
                return ok(d.args[1][1]) and ok(d.args[2][1])
            return False
        return all(ok(v) for v, pb in phi.x if pb in body)

    def defof(e, fn, reg):
        if not hasattr(fn, '_defs'):
            fn._defs = {}
            for b in fn.order:
                for i in fn.blocks[b]:
                    if i.res:
                        fn._defs[i.res] = i
        return fn._defs.get(reg)

    def bounds(e, fn, body, phis, aff, entry):
        """(phi, loop-invariant bound) pairs from comparisons in the loop"""
        out = []
        loopdefs = {i.res for b in body for i in fn.blocks[b] if i.res}
        for b in body:
            for i in fn.blocks[b]:
                if i.op == 'icmp' and i.ty.k in ('int', 'ptr'):
                    for x, y in ((i.args[0][1], i.args[1][1]), (i.args[1][1], i.args[0][1])):
                        # strip sext
                        if x[0] == 'reg' and e.defof(fn, x[1]) is not None and e.defof(fn, x[1]).op in ('sext', 'zext'):
                            x = e.defof(fn, x[1]).args[0][1]
                        if x[0] == 'reg' and x[1] not in aff:
                            # the variable after its step (loops that test at the end)
                            d = e.defof(fn, x[1])
                            if d is not None and d.op in ('add', 'sub', 'getelementptr') and len(d.args) == 2 and d.args[0][1][0] == 'reg' and d.args[1][1][0] == 'int':
                                x = d.args[0][1]
                        if x[0] == 'reg' and x[1] in aff:
                            if y[0] == 'int' or (y[0] == 'reg' and y[1] not in loopdefs and y[1] in entry.env):
                                B = IV(y[1]) if y[0] == 'int' else entry.env[y[1]]
                                out.append((x[1], B))
                            elif y[0] == 'reg':
                                # bound loaded in the loop from memory that may be invariant
                                B = e.trybound(fn, y[1], loopdefs, entry)
                                if B is not None:
                                    out.append((x[1], B))
        return out

    def trybound(e, fn, reg, loopdefs, entry, depth=0):
        """evaluate a loop-computed bound in the entry state (a candidate only)"""
        if reg not in loopdefs:
            return entry.env.get(reg)
        d = e.defof(fn, reg)
        if d is None or depth > 8:
            return None
        vals = []
        for t, v in (d.args or []):
            if v[0] == 'reg':
                x = e.trybound(fn, v[1], loopdefs, entry, depth + 1)
                if x is None:
                    return None
                vals.append(x)
            else:
                try:
                    vals.append(e.val(entry.copy(), t, v, fn.mod))
                except Unsupported:
                    return None
        try:
            if d.op == 'load':
                return entry.ld('p', vals[0]) if d.ty.k == 'ptr' else entry.ld(d.ty.a, vals[0])
            if d.op == 'getelementptr':
                return e.gep(entry, d.ty, [(t, x) for (t, _), x in zip(d.args, vals)], fn.mod)
            if d.op in ('sext',):
                return vals[0]
            if d.op in ('add', 'sub'):
                return vals[0] + vals[1] if d.op == 'add' else vals[0] - vals[1]
            if d.op == 'mul':
                return e.mul(None, vals[0], vals[1])
        except Exception:
            return None
        return None

    # closed forms of array fills:  a[base + c*k] = V(k) for k < t
    def symstep(e, ins, v, backs, fn, fsid, t):
        """the loop-invariant step of a phi, if it has one"""
        step = None
        for pb, bs in backs:
            for x, q in ins.x:
                if q == pb:
                    n = e.val(bs, ins.ty, x, fn.mod)
            if isinstance(v, Ptr) != isinstance(n, Ptr):
                return None
            if isinstance(v, Ptr):
                if not z3.simplify(n.obj).eq(z3.simplify(v.obj)):
                    return None
                d = z3.simplify(n.off - v.off)
            else:
                d = z3.simplify(n - v)
            if z3.is_int_value(d) or any(y.get_id() in fsid or newer(y, t) for y in consts(d)):
                return None
            if step is not None and not step.eq(d):
                return None
            step = d
        return step

    def wrapval(e, ins, backs, fn, fsid, t):
        """the next value of a phi, if it depends on the iteration number alone"""
        got = None
        for pb, bs in backs:
            for x, q in ins.x:
                if q == pb:
                    n = e.val(bs, ins.ty, x, fn.mod)
            parts = [z3.simplify(n.obj), z3.simplify(n.off)] if isinstance(n, Ptr) else [z3.simplify(n)]
            if any((y.get_id() in fsid and y.get_id() != t.get_id()) or newer(y, t) for p in parts for y in consts(p)):
                return None
            if got is not None and not all(x.eq(y) for x, y in zip(got[1], parts)):
                return None
            got = (n, parts)
        if got is None:
            return None
        return Ptr(*got[1]) if isinstance(got[0], Ptr) else got[1][0]

    def family(e, m, o, a, backs, t, fsid, entry):
        if not backs:
            return None
        fams = None
        for bs in backs:
            arr = z3.simplify(bs.mem[m][o])
            chain = []
            x = arr
            while z3.is_store(x):
                chain.append((x.arg(1), x.arg(2)))
                x = x.arg(0)
            if x.get_id() != a.get_id():
                return None
            chain.reverse()
            fam = []
            for off, v in chain:
                b0 = z3.simplify(z3.substitute(off, (t, IV(0))))
                d = z3.simplify(off - b0)
                c = z3.simplify(z3.substitute(d, (t, IV(1))))
                if not z3.is_int_value(c) or c.as_long() == 0:
                    return None
                if not z3.is_true(z3.simplify(d == c * t)):
                    return None
                for y in list(consts(v)) + list(consts(b0)):
                    if y.get_id() in fsid and y.get_id() != t.get_id() or newer(y, t):
                        return None
                fam.append((b0, c.as_long(), v))
            if fams is None:
                fams = fam
            elif len(fams) != len(fam) or any(not (p[0].eq(q[0]) and p[1] == q[1] and p[2].eq(q[2])) for p, q in zip(fams, fam)):
                return None
        if not fams:
            return None
        # distinct families must not overlap
        for i in range(len(fams)):
            for j in range(i):
                d = z3.simplify(fams[i][0] - fams[j][0])
                if fams[i][1] != fams[j][1] or not z3.is_int_value(d) or d.as_long() % abs(fams[i][1]) == 0:
                    return None
        return (fams, entry.mem[m][o], t)

    def famval(e, fam, f, tt):
        fams, a0, t = fam
        r = a0[f]
        for b0, c, v in fams:
            w = abs(c)
            k = f - b0 if c > 0 else b0 - f
            cond = z3.And(k >= 0, k < w * tt)
            if w > 1:
                cond = z3.And(cond, k % w == 0)
                k = k / w
            r = z3.If(cond, z3.substitute(v, (t, k)), r)
        return r

    def famfact(e, fam, a, tt):
        f = z3.Int('f!c')
        return z3.ForAll([f], a[f] == e.famval(fam, f, tt), patterns=[a[f]])

    # -------------------------------------------------------- verify one function
    def initial(e, fn, contract):
        st = St()
        for m in MAPS:
            st.mem[m] = z3.Const('M%s_0' % m, A2)
        st.size = z3.Const('Size_0', A1)
        st.brk = z3.Const('brk_0', I)
        st.assume(st.brk > 0)
        o, f = z3.Ints('o!q f!q')
        po = st.mem['po']
        st.assume(z3.ForAll([o, f], e.known(st, po[o][f]), patterns=[po[o][f]]))
        st.assume(z3.ForAll([o], z3.Implies(o >= st.brk, st.size[o] == -1), patterns=[st.size[o]]))
        st.assume(st.size[0] == 0)
        args = []
        for p, ty in fn.params:
            if ty.k == 'ptr':
                v = Ptr(z3.Const(p + '.o', I), z3.Const(p + '.f', I))
                st.assume(e.known(st, v.obj))
            elif ty.k == 'int':
                v = z3.Const(p, I)
                st.assume(inrange(v, ty.a))
            else:
                v = z3.Const(p, I)
            st.env[p] = v
            args.append(v)
        return st, args

    def known(e, st, x):
        """x can be an object id that exists at function entry (not one of our allocas, not yet unallocated)"""
        return z3.And(x < st.brk, z3.Or(x > ALLOCA_HI, x <= SLOT0))

    def verify(e, fname, contract, modname=None):
        fn = None
        if modname:
            m = e.prog.mods.get(modname)
            fn = m.funcs.get(fname) if m else None
        if fn is None:
            fn = e.prog.find(fname)
        if fn is None:
            for m in e.prog.mods.values():
                if fname in m.funcs:
                    fn = m.funcs[fname]
        e.rootname = '%s' % fname
        e.root = contract
        if fn is None:
            e.obls.append(Obl('%s: function exists' % fname, False, 0, 'none', why='function not found in the sources'))
            return
        e.rootname = '%s:%s' % (os.path.basename(fn.mod.src), fname)
        e.root_mod = e.mod = fn.mod
        st, args = e.initial(fn, contract)
        c = Ctx(e, st, args)
        e.rootctx = c
        try:
            if contract.setup:
                contract.setup(c, st)
            e.globals_setup(st, fn)
            c.s0 = st.copy()
            if contract.axioms:
                for f in contract.axioms(c):
                    st.assume(f)
            for lab, f in (contract.pre(c) if contract.pre else []):
                st.assume(f)
            c.s0 = st.copy()
            # vacuity: the precondition must be satisfiable (not refutable)
            r, _ = e.check(st.pc, 3000)
            e.obls.append(Obl(e.rootname + ': precondition is not contradictory', r != z3.unsat, 0, 'z3',
                              why='precondition refutable'))
            hidden = e.contracts.pop(fname, None)
            try:
                rets, _, _ = e.run(fn, [(fn.entry, None, st)], None, None)
            finally:
                if hidden is not None:
                    e.contracts[fname] = hidden
            for s, r in rets:
                e.check_return(c, contract, s, r)
            if contract.__dict__.get('at_end'):
                contract.at_end(c, rets)
            if not rets and not (contract.__dict__.get('noreturn')):
                e.obls.append(Obl(e.rootname + ': some path returns', False, 0, 'none', why='no feasible returning path'))
            if rets:
                live = any(e.check(s.pc, 1500)[0] != z3.unsat for s, r in rets)
                e.obls.append(Obl(e.rootname + ': cover: a returning path is reachable', live, 0, 'z3', why='all returning paths contradictory'))
        except Unsupported as x:
            e.obls.append(Obl(e.rootname + ': within the verifier\'s language subset', False, 0, 'none', why=str(x)))

    def globals_setup(e, st, fn):
        """sizes and values of the constant and mutable globals this function can reach"""
        seen = set()
        todo = [fn]
        fns = set()
        names = []
        while todo:
            f = todo.pop()
            if f.name in fns:
                continue
            fns.add(f.name)
            for b in f.order:
                for ins in f.blocks[b]:
                    for t, v in (ins.args or []):
                        e.collect(v, names, f.mod)
                    if ins.op == 'phi':
                        for v, _ in ins.x:
                            e.collect(v, names, f.mod)
                    if ins.op == 'call' and ins.x[0] == 'glob':
                        f2 = e.prog.find(ins.x[1], f.mod)
                        if f2 is not None and (ins.x[1] not in e.contracts):
                            todo.append(f2)
        for nm, mod in names:
            if (nm, mod.src) in seen:
                continue
            seen.add((nm, mod.src))
            m, g = e.prog.findglobal(nm, mod)
            if g is None:
                continue
            p = e.globptr(nm, mod)
            st.assume(st.size[p.obj] == m.tt.size(g[0]))

    def collect(e, v, names, mod):
        if v[0] == 'glob':
            names.append((v[1], mod))
        elif v[0] == 'cgep':
            for t, x in v[2]:
                e.collect(x, names, mod)
        elif v[0] == 'ccast':
            e.collect(v[3], names, mod)

    def check_return(e, c, k, s, r):
        c2 = Ctx(e, c.s0, c.a, s, r)
        c2.local = c.local
        if k.aborts:
            A = z3.simplify(k.aborts(c2))
            if not z3.is_false(A):
                e.oblige(s, z3.Not(A), 'does not return when the specification requires termination')
        for lab, f in (k.post(c2) if k.post else []):
            e.oblige(s, f, 'ensures ' + lab)
        if k.__dict__.get('at_return'):
            k.at_return(e, c2, s, r)
        if k.frameless:
            return
        # frame
        o, f = fresh('o'), fresh('f')
        cells = {}
        for w, p in (k.cells(c2) if k.cells else []):
            for m in (('po', 'pf') if w == 'p' else (w,)):
                cells.setdefault(m, []).append(p)
        reg = k.regions(c2) if k.regions else {}
        for m in MAPS:
            if m in k.maps:
                continue
            if s.mem[m].eq(c.s0.mem[m]):
                continue
            exc = [z3.And(o == p.obj, f == p.off) for p in cells.get(m, [])]
            if m in reg:
                exc.append(reg[m](o, f))
            exc.append(z3.And(o <= ALLOCA_HI, o > SLOT0))
            exc.append(o >= c.s0.brk)
            e.oblige(s, z3.Or(*(exc + [s.mem[m][o][f] == c.s0.mem[m][o][f]])),
                     'changes nothing else (%s)' % ({'po': 'pointers', 'pf': 'pointer offsets', 'f': 'floats'}.get(m, '%s-bit data' % m)))
        if not k.sizes and not s.size.eq(c.s0.size):
            e.oblige(s, z3.Or(z3.And(o <= ALLOCA_HI, o > SLOT0), s.size[o] == c.s0.size[o]), 'allocates and frees nothing')
        for g in s.g:
            if g[0] == '!':
                continue
            if g not in k.ghosts and not s.g[g].eq(c.s0.g[g]):
                if z3.is_array(s.g[g]):
                    x = fresh('x', s.g[g].sort().domain())
                    e.oblige(s, s.g[g][x] == c.s0.g[g][x], 'leaves %s alone' % g)
                else:
                    e.oblige(s, s.g[g] == c.s0.g[g], 'leaves %s alone' % g)


def hasquant(x, seen=None):
    seen = set() if seen is None else seen
    if z3.is_quantifier(x):
        return True
    if x.get_id() in seen:
        return False
    seen.add(x.get_id())
    return any(hasquant(y, seen) for y in x.children())


def consts(x, seen=None):
    """uninterpreted constants of a term"""
    seen = set() if seen is None else seen
    out = []
    st = [x]
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_quantifier(y):
            st.append(y.body())
            continue
        if z3.is_app(y):
            if y.num_args() == 0 and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(y)
            st.extend(y.children())
    return out


def newer(x, t):
    """does x mention a symbol created after loop symbol t?"""
    tn = int(str(t).split('!')[1])
    for y in consts(x):
        s = str(y)
        if '!' in s:
            try:
                if int(s.rsplit('!', 1)[1]) > tn:
                    return True
            except ValueError:
                pass
    return False


def mulfacts(a, b):
    r = mulF(a, b)
    fs = [r == mulF(b, a), z3.Implies(a == 0, r == 0), z3.Implies(b == 0, r == 0),
          z3.Implies(a == 1, r == b), z3.Implies(b == 1, r == a),
          z3.Implies(z3.And(a >= 0, b >= 0), r >= 0),
          z3.Implies(z3.And(a >= 1, b >= 1), z3.And(r >= a, r >= b))]
    for x, y in ((a, b), (b, a)):
        if z3.is_add(x):
            cs = [z for z in x.children() if z3.is_int_value(z)]
            if cs:
                rest = z3.simplify(x - cs[0])
                fs.append(r == mulF(rest, y) + cs[0] * y)
                fs.append(mulF(rest, y) == mulF(y, rest))
                fs.append(z3.Implies(rest == 0, mulF(rest, y) == 0))
    return fs


def divstep(a, b):
    """quotient and remainder of a + 1 from those of a"""
    q, m = divF(a, b), modF(a, b)
    g = z3.And(a >= 0, b > 0)
    return [z3.Implies(z3.And(g, m + 1 < b), z3.And(divF(a + 1, b) == q, modF(a + 1, b) == m + 1)),
            z3.Implies(z3.And(g, m + 1 >= b), z3.And(divF(a + 1, b) == q + 1, modF(a + 1, b) == 0))]


def divfacts(a, b):
    q, m = divF(a, b), modF(a, b)
    return [z3.Implies(z3.And(a >= 0, b > 0),
                       z3.And(q >= 0, m >= 0, m < b, q <= a, a == mulF(q, b) + m, z3.Implies(a < b, z3.And(q == 0, m == a)))),
            z3.Implies(b > 0, z3.And(m < b, m > -b, (a >= 0) == (z3.Or(m > 0, z3.And(m == 0, a >= 0))) if False else z3.BoolVal(True))),
            z3.Implies(a == 0, z3.And(q == 0, m == 0)),
            mulF(q, b) == mulF(b, q)]
