"""mpi.c, error.c, info.c, op.c, time.c (C20; parts of C17, C19, C21)."""
from .base import *
from .lib import *
from .consts import K
from .groups import out, ok
from .comm import ALLM, COMM, csetup, newcomm, numok, CG, slotframe, k_comm_new


def cstring(c, p, n, mx, tag):
    """p holds a terminated string of exactly n < mx characters"""
    k = fresh('k')
    return [(tag + ': shorter than the documented maximum', And(n >= 0, n < mx)),
            (tag + ': terminated at the reported length', c.s1.mem[8][p.obj][p.off + n] == 0),
            (tag + ': no terminator before that', imp(And(k >= 0, k < n), c.s1.mem[8][p.obj][p.off + k] != 0))]


def strfn(nm, si, li, mx):
    M = lambda: K(mx)
    Unit(nm, Contract(
        nm, pre=lambda c: [('string buffer of the documented size', And(valid(c.s0, c.a[si], M()), user(c.a[si].obj))), out(c, li)],
        cells=lambda c: [(32, c.a[li])], regions=lambda c: {8: lambda o, f: within(c.a[si], M(), o, f)},
        post=lambda c: cstring(c, c.a[si], c.s1.ld(32, c.a[li]), M(), 'C20') + [ok(c, 'C20')]), ['C20'])


strfn('MPI_Error_string', 1, 2, 'MPI_MAX_ERROR_STRING')
strfn('MPI_Get_processor_name', 0, 1, 'MPI_MAX_PROCESSOR_NAME')
strfn('MPI_Get_library_version', 0, 1, 'MPI_MAX_LIBRARY_VERSION_STRING')


def fver_post(c):
    v, l, ie = c.a
    n = c.s1.ld(32, l)
    M = K('MPI_MAX_LIBRARY_VERSION_STRING')
    k = fresh('k')
    b = c.s1.mem[8][v.obj][v.off + k]
    return [('C20: shorter than the documented maximum', And(n >= 0, n < M)),
            ('C20: not terminated within the string', imp(And(k >= 0, k < n), b != 0)),
            ('C20: blank padded', imp(And(k >= n, k < M), b == 32)),
            ('C20: returns success', c.s1.ld(32, ie) == K('MPI_SUCCESS'))]


Unit('mpi_get_library_version_', Contract(
    'mpi_get_library_version_',
    pre=lambda c: [('string', And(valid(c.s0, c.a[0], K('MPI_MAX_LIBRARY_VERSION_STRING')), user(c.a[0].obj))), out(c, 1), out(c, 2),
                   ('distinct results', disjoint(c.a[1], 4, c.a[2], 4))],
    cells=lambda c: [(32, c.a[1]), (32, c.a[2])],
    regions=lambda c: {8: lambda o, f: within(c.a[0], K('MPI_MAX_LIBRARY_VERSION_STRING'), o, f)}, post=fver_post), ['C20'])


def two(nm):
    Unit(nm, Contract(nm, pre=lambda c: [out(c, 0), out(c, 1), ('distinct', disjoint(c.a[0], 4, c.a[1], 4))],
                      cells=lambda c: [(32, c.a[0]), (32, c.a[1])],
                      post=lambda c: [('C20: the version reported is constant', And(c.s1.ld(32, c.a[0]) == K('MPI_VERSION') if False else
                                                                                  c.s1.ld(32, c.a[0]) == 1, c.s1.ld(32, c.a[1]) == 0)), ok(c, 'C20')]), ['C20'])


two('MPI_Get_Version')


def frozen(nm, cell=None, val=None, props=('C20',)):
    """succeeds; touches nothing but (possibly) one result cell"""
    Unit(nm, Contract(nm, pre=lambda c: [out(c, cell)] if cell is not None else [],
                      cells=lambda c: [(32, c.a[cell])] if cell is not None else [],
                      post=lambda c: [ok(c, 'C20')] + ([('C20: the result', c.s1.ld(32, c.a[cell]) == val)] if val is not None else [])), list(props))


frozen('MPI_Op_create', 2)
frozen('MPI_Op_free', 0)
frozen('MPI_Info_create', 0)
frozen('MPI_Info_set')
frozen('MPI_Info_free', 0)
frozen('MPI_Errhandler_set')


def isetup(c, st):
    csetup(c, st)
    c.local['init'] = gp(c, 'initialized', 'mpi')
    c.local['fp'] = [gp(c, n, 'mpi') for n in ('f_MPI_STATUS_IGNORE', 'f_MPI_STATUSES_IGNORE', 'f_MPI_IN_PLACE')]
    for p in c.local['fp']:
        st.assume(st.size[p.obj] == 8)


def k_fort(e, st, args, ins):
    """fort.F90: calls mpi_save_fort_pointers with the addresses of the Fortran constants"""
    m = e.prog.mods.get('mpi') or e.root_mod
    sf = e.prog.find('mpi_save_fort_pointers_')
    if sf is None:
        raise Unsupported('mpi_save_fort_pointers')
    ps = [Ptr(fresh('fort'), 0) for _ in range(3)]
    for p in ps:
        st.assume(p.obj > 0)
    return e.inline(st, sf, ps, ins)


def k_destroy(e, st, args, ins):
    st.g['live'] = z3.K(I, z3.BoolVal(False))
    st.g['hinit'] = z3.BoolVal(False)
    for g in ('comms', 'reqs', 'dts'):
        st.g[g] = z3.K(I, z3.BoolVal(False))
    new = fresh('Size', A1)
    o = z3.Int('o!q')
    st.assume(forall([o], new[o] == If(o < SLOT0, IV(-1), st.size[o]), [new[o]]))
    st.size = new
    return [(st, None)]


ENVC = dict(ALLM, **COMM)
ENVC['mpi_get_fort_pointers_'] = cust('mpi_get_fort_pointers_', k_fort, ['po', 'pf'])
ENVC['mpi_destroy_handles'] = cust('mpi_destroy_handles', k_destroy, HEFF)

FORT = 'mpi_get_fort_pointers (fort.F90) calls mpi_save_fort_pointers once with the addresses of the Fortran common-block constants'


def init_unit(nm, extra_pre, extra_cells, extra_post):
    Unit(nm, Contract(
        nm, setup=isetup, pre=lambda c: [numok(c), ('the library is not initialised', Not(c.s0.g['hinit']))] + extra_pre(c),
        post=lambda c: [('C20: the world communicator is set up', And(c.s1.g['live'][K('MPI_COMM_WORLD')], Not(c.s0.g['live'][K('MPI_COMM_WORLD')]))),
                        ('C20: initialised from now on', And(c.s1.ld(32, c.local['init']) != 0)),
                        ('C20: and so is the handle table', c.s1.g['hinit']), ok(c, 'C20')]
        + newcomm(c, IV(K('MPI_COMM_WORLD')), 'C20,C17') + extra_post(c),
        cells=lambda c: [(32, c.local['num']), (32, c.local['init'])] + [('p', p) for p in c.local['fp']] + extra_cells(c), regions=slotframe,
        ghosts=CG, sizes=True), ['C20', 'C17'], callees=ENVC, assumptions=[FORT])


init_unit('MPI_Init', lambda c: [], lambda c: [], lambda c: [])
init_unit('MPI_Init_thread', lambda c: [out(c, 3)], lambda c: [(32, c.a[3])],
          lambda c: [('C20: the requested thread level is granted', c.s1.ld(32, c.a[3]) == c.a[2])])

Unit('MPI_Finalize', Contract(
    'MPI_Finalize', setup=isetup, cells=lambda c: [(32, c.local['init'])], ghosts=('live', 'hinit', 'comms', 'reqs', 'dts'), sizes=True,
    post=lambda c: (lambda h: [('C20: no longer initialised', c.s1.ld(32, c.local['init']) == 0), ('C20: the handle table is reset', Not(c.s1.g['hinit'])),
                               ('C20,C01: no handle is live', Not(c.s1.g['live'][h])), ok(c, 'C20')])(fresh('h'))), ['C20'], callees=ENVC)

Unit('MPI_Initialized', Contract(
    'MPI_Initialized', setup=isetup, pre=lambda c: [out(c, 0)], cells=lambda c: [(32, c.a[0])],
    post=lambda c: [('C20: reports the state', (c.s1.ld(32, c.a[0]) != 0) == (c.s0.ld(32, c.local['init']) != 0)), ok(c, 'C20')]), ['C20'])

Unit('MPI_Abort', Contract('MPI_Abort', aborts=lambda c: z3.BoolVal(True), noreturn=True,
                           post=lambda c: [('C19: never returns', z3.BoolVal(False))]), ['C19'])

Unit('MPI_Wtime', Contract('MPI_Wtime'), ['C20', 'C23'])
