"""C11: the table of predefined datatypes, read from the initialisers that are compiled into the library."""
from .base import *
from .consts import K, allk
from .types import kinds, PREDEF, NATIVE
from .constants import fortran_constants
from vc.ir import Ty

# type maps (displacement, length) and extents of the native types (LP64)
ONE = {'CHAR': 1, 'SHORT': 2, 'INT': 4, 'LONG': 8, 'UNSIGNED_CHAR': 1, 'UNSIGNED_SHORT': 2, 'UNSIGNED': 4, 'UNSIGNED_LONG': 8, 'FLOAT': 4,
       'DOUBLE': 8, 'LONG_DOUBLE': 16, 'BYTE': 1, 'PACKED': 1, 'INTEGER': 4, 'REAL': 4, 'DOUBLE_PRECISION': 8, 'COMPLEX': 8,
       'DOUBLE_COMPLEX': 16, 'LOGICAL': 4, 'CHARACTER': 1, 'INTEGER1': 1, 'INTEGER2': 2, 'INTEGER4': 4, 'INTEGER8': 8, 'INTEGER16': 16,
       'REAL4': 4, 'REAL8': 8, 'REAL16': 16, 'COMPLEX8': 8, 'COMPLEX16': 16, 'COMPLEX32': 32, 'LONG_LONG': 8, 'LONG_LONG_INT': 8,
       'UNSIGNED_LONG_LONG': 8, 'OFFSET': 8, 'SIGNED_CHAR': 1, 'WCHAR': 4}
TWO = {'2REAL': (0, 4, 4, 4, 8), '2DOUBLE_PRECISION': (0, 8, 8, 8, 16), '2INTEGER': (0, 4, 4, 4, 8), 'FLOAT_INT': (0, 4, 4, 4, 8),
       'DOUBLE_INT': (0, 8, 8, 4, 16), 'LONG_INT': (0, 8, 8, 4, 16), '2INT': (0, 4, 4, 4, 8), 'SHORT_INT': (0, 2, 4, 4, 8),
       'LONG_DOUBLE_INT': (0, 16, 16, 4, 32)}


def runner(e, u, prog):
    m = prog.mods['type_const']
    e.mod = e.root_mod = m
    e.rootname = 'type_const.c'
    add = lambda lab, ok, why='': e.obls.append(Obl('type_const.c: C11: ' + lab, bool(ok), 0, 'evaluation', why=None if ok else str(why)))
    I32, I64, PT = [Ty('int', 32), Ty('int', 64), Ty('ptr')]
    mm, g = prog.findglobal('simpletypes', m)
    off = lambda f: e.offset('Typestruct', f)[0]
    ps = e.sizeof('typepair')
    pd, pk = e.offset('typepair', 'disp')[0], e.offset('typepair', 'type')[0]
    ks = kinds()
    names = {}
    consts_ = dict(allk())
    for n, v in fortran_constants().items():
        if n not in consts_ and n[4:] in list(ONE) + list(TWO) + ['LB', 'UB'] and v < 0:
            consts_[n] = v
    for n, v in consts_.items():
        b = n[4:] if n.startswith('MPI_') else ''
        if b in ONE or b in TWO or b in ('LB', 'UB'):
            names[n] = (b, v)
    for need in sorted(PREDEF):
        add('%s is defined' % need, need in names, 'no such constant')
    for n in sorted(names):
        b, h = names[n]
        add('%s is a predefined handle' % n, h < 0, h)
        if h >= 0:
            continue
        try:
            p = e.initat(mm, g[0], g[1], 8 * (-1 - h), PT)
        except Exception as x:
            p = None
        ob = z3.simplify(p.obj).as_long() if p is not None else 0
        add('%s names an entry of the table' % n, ob in e.gname and e.gname[ob][0] == 'g', 'the table has no entry %d' % (-1 - h))
        if ob not in e.gname:
            continue
        _, gn, gm = e.gname[ob]
        tm, tg = prog.findglobal(gn, gm)
        rd = lambda o, t: z3.simplify(e.initat(tm, tg[0], tg[1], o, t)).as_long()
        cnt, ub, lb = rd(off('count'), I32), rd(off('ub'), I64), rd(off('lb'), I64)
        el = [(rd(off('pairs') + ps * j + pd, I64), rd(off('pairs') + ps * j + pk, I32)) for j in range(min(cnt, 2))]
        add('%s is committed and idle' % n, rd(off('committed'), I32) != 0 and rd(off('pending'), I32) == 0 and rd(off('freed'), I32) == 0)
        add('%s has no bound override' % n, rd(off('o_lb'), I32) == 0 and rd(off('o_ub'), I32) == 0)
        add('%s has lower bound zero' % n, lb == 0, lb)
        if b in ('LB', 'UB'):
            add('%s is the bound marker' % n, cnt == 1 and ub == 0 and el[0] == (0, K('SIMPLE_LOWER' if b == 'LB' else 'SIMPLE_UPPER')), el)
            continue
        got = [(d, ks.get(k)) for d, k in el]
        add('%s consists of known kinds, none of them a marker' % n, all(k in ks and ks[k] > 0 for _, k in el), el)
        if b in ONE:
            want, ext = [(0, ONE[b])], ONE[b]
        else:
            t = TWO[b]
            want, ext = [(t[0], t[1]), (t[2], t[3])], t[4]
        add('%s has the native type map' % n, cnt == len(want) and got == want, 'count %d elements %s, expected %s' % (cnt, got, want))
        mxl = max(l for _, l in want)
        spans = ub if ub % mxl == 0 else ub + mxl - ub % mxl
        add('%s has the native extent' % n, spans == ext, 'upper bound %d gives extent %d, expected %d' % (ub, spans, ext))
    # the table is never written
    add('the table of predefined datatypes is constant', g[2], 'writable')


Unit('mpi_handle_to_datatype', Contract('predefined'), ['C11'], runner=runner, title='predefined datatypes (compiled initialisers)', leafonly=True)
