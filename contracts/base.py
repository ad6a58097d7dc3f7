"""Shared vocabulary of the contracts."""
import z3
from vc.engine import *

UNITS = []


class Unit:
    """one function under contract: verified for the properties in props"""

    def __init__(u, fname, contract, props, callees=None, mod=None, opts=None, title=None, runner=None, dep=None, leafonly=False,
                 cost=1, assumptions=()):
        u.runner, u.dep, u.leafonly, u.cost, u.assumptions = runner, dep or {}, leafonly, cost, list(assumptions)
        u.fname, u.contract, u.props, u.mod = fname, contract, list(props), mod
        u.callees = callees or {}
        u.opts = opts or {}
        u.title = title or fname
        UNITS.append(u)


def user(o):
    """object ids of the caller's storage (heap or stack, never a library object)"""
    return z3.Or(o > 0, z3.And(o > SLOT0, o <= ALLOCA_HI))


def valid(st, p, n):
    return z3.And(p.off >= 0, p.off + n <= st.size[p.obj])


def within(p, n, o, f):
    """location (o, f) lies in the n bytes at p"""
    return z3.And(o == p.obj, f >= p.off, f < p.off + n)


def disjoint(p, n, q, m):
    return z3.Or(p.obj != q.obj, p.off + n <= q.off, q.off + m <= p.off)


def sk(nm='k'):
    return fresh(nm)


def mentions(y, ids):
    st, seen = [y], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ids:
            return True
        st.extend(x.children())
    return False


def hasite(x, ids=()):
    """case distinctions in a trigger (closed array terms get names of their own: engine.hoist)"""
    st, seen = [x], set()
    while st:
        y = st.pop()
        if ids and z3.is_array(y) and not mentions(y, ids):
            continue
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_app(y):
            if y.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
                return True
            st.extend(y.children())
    return False


def forall(vs, body, pats):
    ids = {v.get_id() for v in vs}
    pats = [p for p in pats if not hasite(p, ids)]
    try:
        return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)
    except z3.Z3Exception:
        pats = [p for p in pats if not hasite(p)]
        return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)


def imp(a, b):
    return z3.Implies(a, b)


And, Or, Not, If = z3.And, z3.Or, z3.Not, z3.If


def gp(c, name, modname=None):
    m = c.eng.prog.mods.get(modname) if modname else c.eng.root_mod
    return c.eng.globptr(name, m or c.eng.root_mod)


def row(st, w, o):
    """the contents of one object, as a simplified array term (usable in triggers)"""
    return z3.simplify(st.mem[w][o])
