"""Contracts of the C library functions the code calls (trusted)."""
import z3
from . import ir
from .engine import *


def _abort(e, st, args, ins):
    e.end_abort(st, 'abort', ins)
    return []


def _exit(e, st, args, ins):
    e.end_abort(st, 'exit', ins)
    return []


def _print(kind):
    def h(e, st, args, ins):
        if 'out' in st.g and kind == 'stdout':
            st.g['out'] = st.g['out'] + 1
        return [(st, fresh('printed'))]
    return h


def _malloc(e, st, args, ins):
    n = args[0]
    o = st.brk
    b = fresh('brk')
    st.assume(b == o + 1)
    st.brk = b
    st.size = z3.Store(st.size, o, n)
    st.newobjs.append(o)
    if ins is not None:
        e.oblige(st, n >= 0, 'allocation size is not negative', ins)
    return [(st, Ptr(o, 0))]


def _free(e, st, args, ins):
    p = args[0]
    e.oblige(st, z3.Or(p.eq(NULL), z3.And(p.off == 0, p.obj > 0, st.size[p.obj] >= 0)), 'memory: frees live heap storage once', ins)
    st.size = z3.If(p.obj == 0, st.size, z3.Store(st.size, p.obj, IV(-1)))
    return [(st, None)]


WIDTH = {8: 1, 16: 2, 32: 4, 64: 8, 'po': 8, 'pf': 8, 'f': 8}


def widths(e, fn, arg):
    """the memories a copy or fill of this size reaches besides bytes: a size that is a constant, or a count times the constant size
    of some type, is that of a structure or array with typed elements; any other size is that of untyped data (see DESIGN.md)"""
    v = arg[1]
    k = None
    for _ in range(4):
        if v[0] == 'int':
            k = v[1]
        if v[0] != 'reg':
            break
        i = e.defof(fn, v[1])
        if i is None:
            break
        if i.op in ('sext', 'zext'):
            v = i.args[0][1]
        elif i.op == 'mul':
            a, b = i.args[0][1], i.args[1][1]
            v = a if a[0] == 'int' else b
            if v[0] != 'int':
                break
        elif i.op == 'shl' and i.args[1][1][0] == 'int':
            k = 1 << i.args[1][1][1]
            break
        else:
            break
    if not k or k % 2:
        return ()
    return tuple(m for m in (16, 32, 64, 'po', 'pf', 'f') if k % WIDTH[m] == 0)


def sizearg(name):
    return {'calloc': 1}.get(name, 2)


def typed(e, fn, name, args):
    return widths(e, fn, args[sizearg(name)]) if name in ('memcpy', 'memmove', 'memset', 'calloc', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'llvm.memset.p0.i64') else ()


def leaves(tt, ty):
    """the memories that hold the elements of a type"""
    if ty.k == 'named':
        ty = tt.named[ty.a]
    if ty.k == 'arr':
        return leaves(tt, ty.b)
    if ty.k == 'struct':
        return set().union(*[leaves(tt, tt.field(ty, i)[1]) for i in range(len(ty.a))])
    if ty.k == 'ptr':
        return {'po', 'pf'}
    return {'f'} if ty.k == 'f' else {8 if ty.a == 1 else ty.a}


def holds(e, p, m):
    """whether memory m may hold elements of the object (those of a global are known)"""
    o = z3.simplify(p.obj)
    if not z3.is_int_value(o) or o.as_long() not in e.gname:
        return True
    kind, name, mod = e.gname[o.as_long()]
    if kind != 'g':
        return True
    mm, g = e.prog.findglobal(name, mod)
    try:
        return not g or m in leaves(mm.tt, g[0])
    except Exception:
        return True


def _row(e, st, m, d, n, val):
    """the cells of memory m within [d, d+n) become val(index)"""
    if not holds(e, d, m):
        return
    w = WIDTH[m]
    M = st.mem[m]
    old = M[d.obj]
    nn = z3.simplify(n)
    if z3.is_int_value(nn) and nn.as_long() <= 64:
        a = old
        for k in range(0, nn.as_long() - w + 1, w):
            a = z3.Store(a, z3.simplify(d.off + k), val(IV(k)))
    else:
        a = fresh('A%s' % m, A1)
        f = z3.Int('f!c')
        st.assume(z3.ForAll([f], a[f] == z3.If(z3.And(f >= d.off, f + w <= d.off + n), val(f - d.off), old[f]), patterns=[a[f]]))
    st.mem[m] = z3.Store(M, d.obj, a)
    if st.stores is not None:
        st.stores.append((m, d.obj, d.off, None))


def _const(e, m, p, k):
    """a cell of a constant object, or None"""
    o, f = z3.simplify(p.obj), z3.simplify(p.off + k)
    if not (z3.is_int_value(o) and z3.is_int_value(f)) or o.as_long() not in e.gname:
        return None
    ty = ir.Ty('ptr') if m in ('po', 'pf') else ir.Ty('f') if m == 'f' else ir.Ty('int', m)
    try:
        v = e.constload(None, ty, o.as_long(), Ptr(o, f))
    except Exception:
        return None
    return v.obj if m == 'po' and v is not None else v.off if m == 'pf' and v is not None else v


def _copy(e, st, d, s, n, ins, overlap):
    src = {m: st.mem[m][s.obj] for m in (8, 16, 32, 64, 'po', 'pf', 'f')}

    def cell(m):
        def val(k):
            c = _const(e, m, s, k) if z3.is_int_value(z3.simplify(k)) else None
            return c if c is not None else src[m][s.off + k]
        return val
    for m in widths(e, e.curfn, ins.args[2]):
        _row(e, st, m, d, n, cell(m))


def _calloc(e, st, args, ins):
    n = z3.simplify(args[0] * args[1]) if z3.is_int_value(z3.simplify(args[1])) or z3.is_int_value(z3.simplify(args[0])) else e.mul(st, args[0], args[1])
    [(st, p)] = _malloc(e, st, [n], ins)
    for m in st.mem:
        st.mem[m] = z3.Store(st.mem[m], p.obj, z3.K(z3.IntSort(), z3.IntVal(0)))
    return [(st, p)]


def _memmove(e, st, args, ins):
    return _memcpy(e, st, args, ins, True)


def _memcpy(e, st, args, ins, overlap=False):
    d, s, n = args[0], args[1], args[2]
    _copy(e, st, d, s, n, ins, overlap)
    e.oblige(st, z3.Or(n == 0, z3.And(s.off >= 0, s.off + n <= st.size[s.obj])), 'memory: memcpy reads within live storage', ins)
    e.oblige(st, z3.Or(n == 0, z3.And(d.off >= 0, d.off + n <= st.size[d.obj])), 'memory: memcpy writes within live storage', ins)
    if not overlap:
        e.oblige(st, z3.Or(n <= 0, s.obj != d.obj, s.off + n <= d.off, d.off + n <= s.off), 'memory: memcpy operands do not overlap', ins)
    a = fresh('A8', A1)
    f = z3.Int('f!c')
    m = st.mem[8]
    st.assume(z3.ForAll([f], a[f] == z3.If(z3.And(f >= d.off, f < d.off + n), m[s.obj][s.off + f - d.off], m[d.obj][f]),
                        patterns=[a[f]]))
    st.mem[8] = z3.Store(m, d.obj, a)
    if st.stores is not None:
        st.stores.append((8, d.obj, d.off, None))
    return [(st, d)]


def _nop(e, st, args, ins):
    return [(st, fresh('r') if ins is not None and ins.ty is not None and ins.ty.k == 'int' else None)]


def _stacksave(e, st, args, ins):
    return [(st, Ptr(fresh('sp'), IV(0)))]


def _row8(st, o):
    return z3.simplify(st.mem[8][o])


def _fill8(e, st, d, n, val):
    """bytes [d, d+n) become val(index); the rest of the object keeps its value"""
    if not holds(e, d, 8):
        return
    a = fresh('A8', A1)
    f = z3.Int('f!c')
    m = st.mem[8]
    st.assume(z3.ForAll([f], a[f] == z3.If(z3.And(f >= d.off, f < d.off + n), val(f - d.off), m[d.obj][f]), patterns=[a[f]]))
    st.mem[8] = z3.Store(m, d.obj, a)
    if st.stores is not None:
        st.stores.append((8, d.obj, d.off, None))


def _w8(e, st, d, n, ins, what):
    e.oblige(st, z3.Or(n <= 0, z3.And(d.off >= 0, d.off + n <= st.size[d.obj])), 'memory: %s writes within live storage' % what, ins)


def sbyte(b):
    return b - 256 if b > 127 else b


def _memset(e, st, args, ins):
    d, v, n = args[0], args[1], args[2]
    _w8(e, st, d, n, ins, 'memset')
    vv = z3.simplify((v + 128) % 256 - 128)
    for m in widths(e, e.curfn, ins.args[2]):
        c = vv.as_long() if z3.is_int_value(vv) else None
        any_ = fresh('A%s' % m, A1)
        _row(e, st, m, d, n, lambda k: IV(c) if c == 0 or c == -1 and m in (16, 32, 64) else any_[k])
    _fill8(e, st, d, n, lambda k: vv)
    return [(st, d)]


def _terms(e, st, p):
    """offsets at which a terminator may be known to lie"""
    out = []
    for o, f in st.g.get('!terms', []):
        out.append((o, f))
    r = _row8(st, p.obj)
    while z3.is_store(r):
        out.append((p.obj, r.arg(1)))
        r = r.arg(0)
    return out


def _strlen(e, st, args, ins):
    p = args[0]
    b = e.conststr(p)
    if b is not None:
        return [(st, IV(len(b)))]
    cs = [z3.And(o == p.obj, f >= p.off, f < st.size[p.obj], st.mem[8][p.obj][f] == 0) for o, f in _terms(e, st, p)]
    e.oblige(st, z3.And(p.off >= 0, z3.Or(*cs)) if cs else z3.BoolVal(False), 'memory: strlen of a terminated string', ins)
    n = fresh('len')
    row = _row8(st, p.obj)
    f = z3.Int('f!s')
    st.assume(n >= 0, p.off + n < st.size[p.obj], st.mem[8][p.obj][p.off + n] == 0)
    for o, g in _terms(e, st, p):
        st.assume(z3.Implies(z3.And(o == p.obj, g >= p.off, st.mem[8][p.obj][g] == 0), p.off + n <= g))
    x = fresh('strrow', A1)
    st.assume(x == row)
    st.assume(z3.ForAll([f], z3.Implies(z3.And(f >= p.off, f < p.off + n), x[f] != 0), patterns=[x[f]]))
    return [(st, n)]


def _strncpy(e, st, args, ins):
    d, s, n = args
    b = e.conststr(s)
    if b is None:
        raise Unsupported('strncpy from a non-constant string')
    _w8(e, st, d, n, ins, 'strncpy')

    def val(k):
        r = IV(0)
        for i, x in enumerate(b):
            r = z3.If(k == i, IV(sbyte(x)), r)
        return r
    _fill8(e, st, d, n, val)
    st.g['!terms'] = st.g.get('!terms', []) + [(d.obj, z3.simplify(d.off + len(b)))]
    return [(st, d)]


def _strcpy(e, st, args, ins):
    b = e.conststr(args[1])
    if b is None:
        raise Unsupported('strcpy from a non-constant string')
    return _strncpy(e, st, [args[0], args[1], IV(len(b) + 1)], ins)


def _format(e, st, d, fmt, args, cap, ins, what):
    b = e.conststr(fmt)
    if b is None:
        raise Unsupported('format string is not constant')
    lo = hi = 0
    i = 0
    while i < len(b):
        if b[i:i + 2] in (b'%d', b'%i'):
            lo, hi, i = lo + 1, hi + 11, i + 2
        elif b[i:i + 2] == b'%u':
            lo, hi, i = lo + 1, hi + 10, i + 2
        elif b[i:i + 2] == b'%%':
            lo, hi, i = lo + 1, hi + 1, i + 2
        elif b[i:i + 1] == b'%':
            raise Unsupported('format directive')
        else:
            lo, hi, i = lo + 1, hi + 1, i + 1
    n = fresh('printed') if lo != hi else IV(lo)
    st.assume(n >= lo, n <= hi)
    m = n if cap is None else z3.If(n < cap, n, cap - 1)
    if cap is not None:
        st.assume(cap > 0)
    _w8(e, st, d, m + 1, ins, what)
    txt = fresh('txt', A1)
    f = z3.Int('f!s')
    st.assume(z3.ForAll([f], z3.And(txt[f] != 0, txt[f] >= -128, txt[f] < 128), patterns=[txt[f]]))
    _fill8(e, st, d, m + 1, lambda k: z3.If(k == m, IV(0), txt[k]))
    st.g['!terms'] = st.g.get('!terms', []) + [(d.obj, z3.simplify(d.off + m))]
    return [(st, n)]


def _sprintf(e, st, args, ins):
    return _format(e, st, args[0], args[1], args[2:], None, ins, 'sprintf')


def _snprintf(e, st, args, ins):
    return _format(e, st, args[0], args[2], args[3:], args[1], ins, 'snprintf')


def _gethostname(e, st, args, ins):
    d, n = args
    _w8(e, st, d, n, ins, 'gethostname')
    txt = fresh('txt', A1)
    f = z3.Int('f!s')
    st.assume(z3.ForAll([f], z3.And(txt[f] >= -128, txt[f] < 128), patterns=[txt[f]]))
    _fill8(e, st, d, n, lambda k: txt[k])
    r = fresh('r')
    st.assume(inrange(r, 32))
    return [(st, r)]


def _gettimeofday(e, st, args, ins):
    p = args[0]
    e.oblige(st, z3.And(p.off >= 0, p.off + 16 <= st.size[p.obj]), 'memory: gettimeofday writes within live storage', ins)
    for o in (0, 8):
        v = fresh('tv')
        st.assume(inrange(v, 64))
        st.put(64, p, v, o)
    return [(st, IV(0))]


BUILTINS = {
    'abort': _abort, 'exit': _exit,
    'fprintf': _print('stderr'), 'printf': _print('stdout'), 'puts': _print('stdout'), 'putchar': _print('stdout'),
    'fflush': _nop, 'perror': _print('stderr'),
    'strlen': _strlen, 'strncpy': _strncpy, 'strcpy': _strcpy, 'sprintf': _sprintf, 'snprintf': _snprintf,
    'gethostname': _gethostname, 'gettimeofday': _gettimeofday, 'llvm.memset.p0.i64': _memset, 'memset': _memset,
    'calloc': _calloc, 'memmove': _memmove, 'llvm.memmove.p0.p0.i64': _memmove,
    'malloc': _malloc, 'free': _free,
    'llvm.memcpy.p0.p0.i64': _memcpy, 'memcpy': _memcpy,
    'llvm.stacksave.p0': _stacksave, 'llvm.stackrestore.p0': _nop, 'llvm.stacksave': _stacksave, 'llvm.stackrestore': _nop,
}
EFFECTS = {'llvm.memset.p0.i64': (8,), 'memset': (8,), 'strncpy': (8,), 'strcpy': (8,), 'sprintf': (8,), 'snprintf': (8,), 'gethostname': (8,), 'gettimeofday': (64,), 'llvm.memcpy.p0.p0.i64': (8,), 'memcpy': (8,), 'memmove': (8,), 'llvm.memmove.p0.p0.i64': (8,), 'calloc': ('size', 8, 16, 32, 64, 'po', 'pf', 'f'), 'malloc': ('size',), 'free': ('size',),
           'printf': (('g', 'out'),), 'puts': (('g', 'out'),), 'putchar': (('g', 'out'),)}
