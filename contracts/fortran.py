"""The Fortran entry points (C21): each performs exactly the C operation once.

Calls to C operations are recorded instead of entered; afterwards every object the operation may have
written holds arbitrary values.  Everything else in the wrapper is executed as it stands."""
from .base import *
from .consts import K

# argument kinds: v the integer the Fortran argument holds, w the same for an address-sized integer, p the address itself,
# s/S/i the address with the Fortran constant for ignored status / ignored statuses / in-place translated
TABLE = {}


def T(txt):
    for l in txt.strip().split('\n'):
        w = l.split()
        TABLE[w[0]] = (w[1], w[2] if len(w) > 2 else '', w[3] if len(w) > 3 else '')


T("""
mpi_abort_ MPI_Abort vv
mpi_allgather_ MPI_Allgather ivvpvvv
mpi_allgatherv_ MPI_Allgatherv ivvpppvv
mpi_allreduce_ MPI_Allreduce ipvvvv
mpi_alltoall_ MPI_Alltoall ivvpvvv
mpi_alltoallv_ MPI_Alltoallv ippvpppvv
mpi_alltoallw_ MPI_Alltoallw ipppppppv
mpi_barrier_ MPI_Barrier v
mpi_bcast_ MPI_Bcast pvvvv
mpi_cart_coords_ MPI_Cart_coords vvvp
mpi_cart_create_ MPI_Cart_create vvppvp
mpi_cart_get_ MPI_Cart_get vvppp
mpi_comm_create_ MPI_Comm_create vvp
mpi_comm_dup_ MPI_Comm_dup vp
mpi_comm_free_ MPI_Comm_free p
mpi_comm_group_ MPI_Comm_group vp
mpi_comm_rank_ MPI_Comm_rank vp
mpi_comm_size_ MPI_Comm_size vp
mpi_comm_split_ MPI_Comm_split vvvp
mpi_dims_create_ MPI_Dims_create vvp
mpi_error_string_ MPI_Error_string vpp
mpi_finalize_ MPI_Finalize
mpi_gather_ MPI_Gather ivvpvvvv
mpi_gatherv_ MPI_Gatherv ivvpppvvv
mpi_get_count_ MPI_Get_count pvp
mpi_get_elements_ MPI_Get_elements pvp
mpi_get_processor_name_ MPI_Get_processor_name pp
mpi_group_difference_ MPI_Group_difference vvp
mpi_group_free_ MPI_Group_free p
mpi_group_incl_ MPI_Group_incl vvpp
mpi_group_intersection_ MPI_Group_intersection vvp
mpi_group_range_incl_ MPI_Group_range_incl vvpp
mpi_group_translate_ranks_ MPI_Group_translate_ranks vvpvp
mpi_group_union_ MPI_Group_union vvp
mpi_info_create_ MPI_Info_create p
mpi_info_free_ MPI_Info_free p
mpi_info_set_ MPI_Info_set vpp
mpi_initialized_ MPI_Initialized p
mpi_intercomm_create_ MPI_Intercomm_create vvvvvp
mpi_iprobe_ MPI_Iprobe vvvps
mpi_irecv_ MPI_Irecv pvvvvvp
mpi_irsend_ MPI_Irsend pvvvvvp
mpi_isend_ MPI_Isend pvvvvvp
mpi_op_create_ MPI_Op_create pvp
mpi_op_free_ MPI_Op_free p
mpi_pack_ MPI_Pack pvvpvpv
mpi_pack_size_ MPI_Pack_size vvvp
mpi_probe_ MPI_Probe vvvs
mpi_recv_ MPI_Recv pvvvvvs
mpi_reduce_ MPI_Reduce ipvvvvv
mpi_reduce_scatter_ MPI_Reduce_scatter ippvvv
mpi_request_free_ MPI_Request_free p
mpi_rsend_ MPI_Rsend pvvvvv
mpi_scan_ MPI_Scan ipvvvv
mpi_scatter_ MPI_Scatter pvvivvvv
mpi_scatterv_ MPI_Scatterv pppvivvvv
mpi_send_ MPI_Send pvvvvv
mpi_sendrecv_ MPI_Sendrecv pvvvvpvvvvvs
mpi_ssend_ MPI_Ssend pvvvvv
mpi_test_ MPI_Test pps
mpi_testall_ MPI_Testall vppS
mpi_testany_ MPI_Testany vppps index=2
mpi_testsome_ MPI_Testsome vpppS some=2,3
mpi_type_commit_ MPI_Type_commit p
mpi_type_contiguous_ MPI_Type_contiguous vvp
mpi_type_create_hvector_ MPI_Type_create_hvector vvwvp
mpi_type_create_indexed_block_ MPI_Type_create_indexed_block vvpvp
mpi_type_extent_ MPI_Type_extent vp
mpi_type_free_ MPI_Type_free p
mpi_type_hindexed_ MPI_Type_hindexed vppvp
mpi_type_hvector_ MPI_Type_hvector vvwvp
mpi_type_indexed_ MPI_Type_indexed vppvp
mpi_type_lb_ MPI_Type_lb vp
mpi_type_size_ MPI_Type_size vp
mpi_type_struct_ MPI_Type_struct vpppp
mpi_type_ub_ MPI_Type_ub vp
mpi_type_vector_ MPI_Type_vector vvvvp
mpi_unpack_ MPI_Unpack pvppvvv
mpi_wait_ MPI_Wait ps
mpi_waitall_ MPI_Waitall vpS
mpi_waitany_ MPI_Waitany vpps index=2
mpi_waitsome_ MPI_Waitsome vpppS some=2,3
""")

# operations of another name that are the same operation (their own bodies are executed)
SAME = ('MPI_Ssend', 'MPI_Rsend', 'MPI_Get_address', 'MPI_Address', 'MPI_Wtime')


def canon(n):
    return 'MPI_Send' if n in ('MPI_Ssend', 'MPI_Rsend') else n


def recorder(name, spec, c):
    def f(e, st, args, ins):
        pre = dict(st.mem)
        for m in MAPS:
            st.mem[m] = fresh('M%s' % m, A2)
        fn = e.prog.find(name)
        r = None
        if fn is not None and fn.ret.k == 'int':
            r = fresh('ret')
            st.assume(inrange(r, fn.ret.a))
        elif fn is not None and fn.ret.k == 'f':
            r = fresh('ret')
        if spec[2].startswith('index='):
            x = st.ld(32, c.a[int(spec[2][6:])])
            st.assume(Or(x == K('MPI_UNDEFINED'), And(x >= 0, x < 2 ** 31 - 1)))
        if spec[2].startswith('some='):
            n, a = [int(q) for q in spec[2][5:].split(',')]
            cnt = st.ld(32, c.a[n])
            st.assume(Or(cnt == K('MPI_UNDEFINED'), And(cnt >= 0, cnt <= c.s0.ld(32, c.a[0]))))
            row = z3.simplify(st.mem[32][c.a[a].obj])
            x = z3.Int('f!i')
            st.assume(forall([x], imp(And(x >= c.a[a].off, x < c.a[a].off + 4 * cnt), And(row[x] >= 0, row[x] < 2 ** 31 - 1)), [row[x]]))
        st.trace.append(('call', name, args, pre, dict(st.mem), r))
        return [(st, r)]
    return f


def runner(wname):
    spec = TABLE[wname]

    def run(e, u, prog):
        e.rootname = wname
        fn = prog.find(wname)
        hold = {}

        def setup(c, st):
            hold['c'] = c
            if len(fn.params) != len(spec[1]) + 1:
                raise Unsupported('%s has %d arguments' % (wname, len(fn.params)))
            for n, f in prog.funcs.items():
                if n.startswith('MPI_') and n not in SAME:
                    e.contracts[n] = Contract(n, custom=recorder(n, spec, c), effects=tuple(MAPS))
            c.local['fp'] = {k: gp(c, n, 'mpi') for k, n in (('s', 'f_MPI_STATUS_IGNORE'), ('S', 'f_MPI_STATUSES_IGNORE'), ('i', 'f_MPI_IN_PLACE'))}
            for p in c.local['fp'].values():
                st.assume(st.size[p.obj] == 8)

        def expected(c):
            out = []
            cst = {'s': 'MPI_STATUS_IGNORE', 'S': 'MPI_STATUSES_IGNORE', 'i': 'MPI_IN_PLACE'}
            for k, a in zip(spec[1], c.a):
                if k == 'v':
                    out.append(c.s0.ld(32, a))
                elif k == 'w':
                    out.append(c.s0.ld(64, a))
                elif k == 'p':
                    out.append(a)
                else:
                    f = c.s0.ld('p', c.local['fp'][k])
                    out.append(pite(a.eq(f), Ptr(0, K(cst[k])), a))
            return out

        def pre(c):
            ie = c.a[-1]
            fs = [('error argument', And(valid(c.s0, ie, 4), user(ie.obj)))]
            for k, a, i in zip(spec[1], c.a, range(99)):
                if k in 'vw':
                    fs.append(('argument %d' % i, valid(c.s0, a, 8 if k == 'w' else 4)))
            if spec[2].startswith('index='):
                x = c.a[int(spec[2][6:])]
                fs.append(('index', And(valid(c.s0, x, 4), user(x.obj), disjoint(x, 4, ie, 4))))
            if spec[2].startswith('some='):
                n, a = [c.a[int(q)] for q in spec[2][5:].split(',')]
                cnt = c.s0.ld(32, c.a[0])
                m = If(cnt > 0, cnt, 0)
                fs.append(('results', And(valid(c.s0, n, 4), user(n.obj), disjoint(n, 4, ie, 4), valid(c.s0, a, 4 * m), user(a.obj),
                                          disjoint(a, 4 * m, ie, 4), disjoint(a, 4 * m, n, 4))))
            return fs

        def invs(lc):
            c = lc.c
            if not spec[2].startswith('some='):
                return []
            n, a = [c.a[int(q)] for q in spec[2][5:].split(',')]
            f = z3.Int('f!j')
            cur = row(lc.st, 32, a.obj)[f]
            was = z3.simplify(lc.entry.mem[32][a.obj])[f]
            cnt = lc.entry.ld(32, n)
            res = []
            for nm, lo, hi in (('up', IV(0), lc.t), ('down', cnt - lc.t, cnt)):
                rng = And(f >= a.off + 4 * lo, f < a.off + 4 * hi, (f - a.off) % 4 == 0)
                res.append(('positions adjusted so far (%s)' % nm, forall([f], cur == If(rng, was + 1, was), [cur])))
            return res

        def post(c):
            s = c.s1
            calls = [t for t in s.trace if t[0] == 'call']
            res = [('C21: performs exactly one C operation', z3.BoolVal(len(calls) == 1))]
            if len(calls) != 1:
                return res
            _, name, args, premem, postmem, r = calls[0]
            want = canon(spec[0])
            res.append(('C21: that operation is %s' % spec[0], z3.BoolVal(name == want and len(args) == len(spec[1]))))
            if name == want and len(args) == len(spec[1]):
                for i, (x, y) in enumerate(zip(args, expected(c))):
                    tag = 'C21,C15' if spec[1][i] == 'i' else 'C21'
                    res.append(('%s: argument %d (%s) is passed on as specified' % (tag, i + 1, fn.params[i][0]), valeq(x, y)))
            o, f = fresh('o'), fresh('f')
            vis = Not(And(o <= ALLOCA_HI, o > SLOT0))
            for m in MAPS:
                if not premem[m].eq(c.s0.mem[m]):
                    res.append(('C21: writes nothing before the operation (%s)' % m, imp(vis, premem[m][o][f] == c.s0.mem[m][o][f])))
            ie = c.a[-1]
            res.append(('C21: the error argument receives the operation\'s return code', s.ld(32, ie) == r))
            for m in MAPS:
                if m != 32:
                    if not s.mem[m].eq(postmem[m]):
                        res.append(('C21: writes nothing else (%s)' % m, imp(vis, s.mem[m][o][f] == postmem[m][o][f])))
                    continue
                v = postmem[32][o][f]
                if spec[2].startswith('index='):
                    x = c.a[int(spec[2][6:])]
                    v = If(And(o == x.obj, f == x.off), If(v == K('MPI_UNDEFINED'), v, v + 1), v)
                if spec[2].startswith('some='):
                    n, a = [c.a[int(q)] for q in spec[2][5:].split(',')]
                    cnt = postmem[32][n.obj][n.off]
                    v = If(And(o == a.obj, f >= a.off, f < a.off + 4 * cnt, (f - a.off) % 4 == 0), v + 1, v)
                res.append(('C21: writes exactly the error argument%s' % (' and positions counted from one' if spec[2] else ''),
                            imp(And(vis, Not(And(o == ie.obj, f == ie.off))), s.mem[32][o][f] == v)))
            return res
        e.verify(wname, Contract(wname, setup=setup, pre=pre, post=post, invs=invs, frameless=True, noabort_check=False))
    return run


C15W = {n for n, s in TABLE.items() if 'i' in s[1]}
for _n in TABLE:
    Unit(_n, Contract(_n), ['C21'] + (['C15'] if _n in C15W else []), runner=runner(_n))

for _n in ('mpi_get_address_', 'mpi_address_'):
    def addr_post(c):
        return [('C21: stores the address', c.s1.ld(64, c.a[1]) == If(c.a[0].obj == 0, c.a[0].off, addrF(c.a[0].obj) + c.a[0].off)),
                ('C21: reports success', c.s1.ld(32, c.a[2]) == K('MPI_SUCCESS'))]
    Unit(_n, Contract(_n, pre=lambda c: [('results', And(valid(c.s0, c.a[1], 8), user(c.a[1].obj), valid(c.s0, c.a[2], 4), user(c.a[2].obj))),
                                         ('the address is a machine address', And(addrF(IV(0)) == 0, inrange(addrF(c.a[0].obj) + c.a[0].off, 64)))],
                      cells=lambda c: [(64, c.a[1]), (32, c.a[2])], post=addr_post), ['C21'])
for _n in ('MPI_Get_address', 'MPI_Address'):
    Unit(_n, Contract(_n, pre=lambda c: [('result', And(valid(c.s0, c.a[1], 8), user(c.a[1].obj))),
                                         ('the address is a machine address', And(addrF(IV(0)) == 0, inrange(addrF(c.a[0].obj) + c.a[0].off, 64)))],
                      cells=lambda c: [(64, c.a[1])],
                      post=lambda c: [('C21,C09: the address', c.s1.ld(64, c.a[1]) == If(c.a[0].obj == 0, c.a[0].off, addrF(c.a[0].obj) + c.a[0].off)),
                                      ('C21: success', c.ret == K('MPI_SUCCESS'))]), ['C21', 'C09'])

Unit('mpi_get_version_', Contract(
    'mpi_get_version_', pre=lambda c: [('results', And(*[And(valid(c.s0, p, 4), user(p.obj)) for p in c.a])),
                                       ('distinct', And(disjoint(c.a[0], 4, c.a[1], 4), disjoint(c.a[0], 4, c.a[2], 4), disjoint(c.a[1], 4, c.a[2], 4)))],
    cells=lambda c: [(32, p) for p in c.a],
    post=lambda c: [('C20,C21: the version', And(c.s1.ld(32, c.a[0]) == 1, c.s1.ld(32, c.a[1]) == 0)),
                    ('C21: reports success', c.s1.ld(32, c.a[2]) == K('MPI_SUCCESS'))]), ['C20', 'C21'])


def wt_runner(e, u, prog):
    def setup(c, st):
        def f(e2, s, a, ins):
            r = fresh('wtime')
            s.trace.append(('call', 'MPI_Wtime', a, None, None, r))
            return [(s, r)]
        e.contracts['MPI_Wtime'] = Contract('MPI_Wtime', custom=f)
    e.verify('mpi_wtime_', Contract('mpi_wtime_', setup=setup, post=lambda c: [
        ('C21: exactly the C clock', And(z3.BoolVal(len(c.s1.trace) == 1), c.ret == c.s1.trace[0][5]) if c.s1.trace else z3.BoolVal(False))]))


Unit('mpi_wtime_', Contract('mpi_wtime_'), ['C21'], runner=wt_runner)


def sp_setup(c, st):
    c.local['fp'] = [gp(c, n, 'mpi') for n in ('f_MPI_STATUS_IGNORE', 'f_MPI_STATUSES_IGNORE', 'f_MPI_IN_PLACE')]
    for p in c.local['fp']:
        st.assume(st.size[p.obj] == 8)


Unit('mpi_save_fort_pointers_', Contract(
    'mpi_save_fort_pointers_', setup=sp_setup, cells=lambda c: [('p', p) for p in c.local['fp']],
    post=lambda c: [('C21,C15: the Fortran constant %d is remembered' % i, c.s1.ld('p', p).eq(c.a[i])) for i, p in enumerate(c.local['fp'])]),
    ['C21', 'C15'])
