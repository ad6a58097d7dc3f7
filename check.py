#!/usr/bin/env python3-vt
"""check.py <property>: proves every obligation the property depends on from /repo's current sources.

exit 0: every obligation discharged;  exit 1 and a VIOLATION line otherwise."""
import sys, os, time, json, importlib, multiprocessing as mp, traceback
if os.environ.get('PYTHONHASHSEED') != '0':       # same obligations, same queries, same order on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
from multiprocessing.connection import wait
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
T0 = time.time()
PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if len(sys.argv) > 2:
    TIER = sys.argv[2]
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = 520 if TIER == 'quick' else 2400

from vc import build, ir
from vc.engine import Engine, Obl
import contracts.base as B

MODULES = [l.strip() for l in open(os.path.join(HERE, 'contracts', 'MODULES')) if l.strip()]
EV = os.path.join(HERE, 'evidence')
os.makedirs(EV, exist_ok=True)
REPLAY = os.path.join(EV, 'replay-%s.txt' % PROP)

TRUSTED = [
    'clang 18 (C to LLVM IR) and opt passes sroa, simplifycfg, loop-simplify, lcssa',
    'the verifier in /verif/vc (IR parser, symbolic execution, loop rule, contract application)',
    'z3 4.x (python3-vt z3-solver), cvc5 1.1.2 as second back end',
]
ASSUME = [
    'malloc and stack allocation succeed; allocation returns storage distinct from every live object',
    'memory is separated by access width (no object is read at another width than it was written, except bytes moved by memcpy)',
    'C library contracts in vc/builtins.py (memcpy, strlen, strncpy, sprintf, gethostname, gettimeofday, abort, exit, printf family) are trusted',
    'fewer than 262144 handles are live at once, and queues hold fewer than 2^31 - 1 elements (the code has these limits)',
    'callers meet the stated preconditions (valid pointers, live handles, non-overlapping buffers), which is what MPI requires of them',
]


def violation(reason, lines, found=None):
    with open(REPLAY, 'w') as f:
        f.write('property %s\n' % PROP)
        f.write(reason + '\n')
        f.write('\n'.join(lines) + '\n')
        if found:
            f.write('\nFailing input against the real code:\n' + found + '\n')
    print('VIOLATION property=%s replay=%s%s' % (PROP, REPLAY, '' if found else ' no-failing-input-found'), flush=True)


def work(i, attempt):
    u = B.UNITS[i]
    t = time.time()
    opts = dict(u.opts)
    opts['seed'] = attempt * 17
    opts['deadline'] = DEADLINE
    e = Engine(PROG, dict(u.callees), opts)
    try:
        if u.runner:
            u.runner(e, u, PROG)
        else:
            e.verify(u.fname, u.contract, u.mod)
    except Exception as x:      # a crash of the verifier on changed code is an undischarged obligation
        e.obls.append(Obl('%s: verified' % u.title, False, 0, 'none', why='verifier error: %s' % (traceback.format_exc()[-1500:])))
    return (i, [(o.label, o.ok, o.backend, o.why, o.model) for o in e.obls], e.solver_time, e.queries, sorted(e.used), sorted(e.inlined),
            sorted(e.externs), time.time() - t)


UNIT_LIMIT = 240      # seconds of wall time after which an attempt at one function is abandoned


def child(i, attempt, conn):
    if os.environ.get("VC_HANG"):
        import faulthandler
        faulthandler.dump_traceback_later(40)
    conn.send(work(i, attempt))
    conn.close()
    os._exit(0)


def schedule(ids):
    """one fresh process per function and attempt; an attempt that hangs or fails is repeated with another solver seed"""
    ctx = mp.get_context('fork')
    queue = [(i, 0) for i in ids]
    run = {}
    res = {}
    while queue or run:
        while queue and len(run) < 8:
            i, k = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(i, k, b))
            p.start()
            b.close()
            run[a] = (i, k, p, time.time())
        for a in wait(list(run), 2):
            i, k, p, t = run.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = lost(i, 'the verifier process died', time.time() - t)
            p.join()
            finish(res, queue, i, k, r)
        for a in list(run):
            i, k, p, t = run[a]
            if time.time() - t > UNIT_LIMIT * (1 if TIER == 'quick' else 4) or time.time() > DEADLINE + 90:
                p.kill()
                p.join()
                run.pop(a)
                finish(res, queue, i, k, lost(i, 'no answer from the solver', time.time() - t))
    return [res[i] for i in ids]


def lost(i, why, wall):
    return (i, [('%s: verified' % B.UNITS[i].title, False, 'none', why, None)], wall, 0, [], [], [], wall)


def finish(res, queue, i, k, r):
    bad = lambda x: sum(1 for o in x[1] if not o[1])
    if i not in res or bad(r) < bad(res[i]):
        res[i] = r
    if bad(res[i]) and k < 2 and time.time() < T0 + BUDGET * 0.5:
        queue.append((i, k + 1))


def tags(label):
    """property tags of an obligation label"""
    for part in label.replace("specified state: ", "").split(': '):
        for q in part.replace('ensures ', '').replace('on termination', '').replace('loop invariant', '').split(','):
            if len(q) == 3 and q[0] == 'C' and q[1:].isdigit():
                return set(x for x in part.replace('ensures ', '').split(','))
    return None


def closure(prog):
    """units of the property that no other unit relies on (only obligations labelled with the property count there), and all units of
    the property with, transitively, those whose contracts they rely on"""
    by = {}
    for i, u in enumerate(B.UNITS):
        by.setdefault(u.fname, []).append(i)
    roots = [i for i, u in enumerate(B.UNITS) if PROP in u.props]
    seen, todo, needed = set(roots), list(roots), set()
    while todo:
        u = B.UNITS[todo.pop()]
        for name in sorted(reach(prog, u)):
            for j in by.get(u.dep.get(name, name), []):
                if not B.UNITS[j].leafonly:
                    needed.add(j)
                if j not in seen and not B.UNITS[j].leafonly:
                    seen.add(j)
                    todo.append(j)
    return set(roots) - needed, sorted(seen)


def reach(prog, u):
    fn = prog.find(u.fname)
    if fn is None and u.mod and u.mod in prog.mods:
        fn = prog.mods[u.mod].funcs.get(u.fname)
    if fn is None:
        for m in prog.mods.values():
            if u.fname in m.funcs:
                fn = m.funcs[u.fname]
    if fn is None:
        return set()
    out, todo, done = set(), [fn], set()
    while todo:
        f = todo.pop()
        if f.name in done:
            continue
        done.add(f.name)
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op == 'call' and ins.x[0] == 'glob':
                    n = ins.x[1]
                    if n in u.callees:
                        out.add(n)
                    else:
                        g = prog.find(n, f.mod)
                        if g is not None:
                            todo.append(g)
    return out


def known():
    """known findings for this property: label fragments"""
    p = os.path.join(HERE, 'known-findings.txt')
    res = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % PROP):
                res.append(l.split(' ', 2)[2].strip())
    return res


def main():
    global PROG, DEADLINE
    try:
        PROG = build.compile_all()
    except (build.BuildError, ir.Unsupported) as x:
        violation('the sources do not compile to the verifier\'s input', [str(x)], None)
        evidence([], 0, 1, {}, [str(x)])
        return 1
    for m in MODULES:
        importlib.import_module('contracts.' + m)
    DEADLINE = T0 + BUDGET
    rootset, ids = closure(PROG)
    ids.sort(key=lambda i: -B.UNITS[i].cost)
    res = schedule(ids)
    total = ok = 0
    bad = []
    be = {}
    st = 0.0
    funcs, inl, ext = {}, set(), set()
    for i, obls, stime, q, used, inlined, externs, wall in res:
        u = B.UNITS[i]
        n0 = n1 = 0
        for label, good, backend, why, model in obls:
            tg = tags(label)
            if i in rootset and tg is not None and PROP not in tg:
                continue
            total += 1
            n0 += 1
            if good:
                ok += 1
                n1 += 1
                be[backend] = be.get(backend, 0) + 1
            else:
                bad.append((label, why, model))
        st += stime
        funcs[u.title] = '%d/%d obligations, %.1f s%s' % (n1, n0, wall, '' if i in rootset else ' (used contract)')
        inl |= set(inlined)
        ext |= set(externs)
    found = None
    viol = 0
    lines = []
    if bad:
        for l, w, m in bad:
            lines.append('FAILED OBLIGATION %s' % l)
            lines.append('    solver: %s' % w)
            if m:
                lines.append('    counterexample candidate: %s' % m)
        found = witness(60 if TIER == 'quick' else 300)
    elif TIER == 'thorough':
        found = witness(600)
    if bad or found:
        viol = max(1, len(bad))
        violation('%d of %d obligations not discharged' % (len(bad), total), lines, found)
    for k in known():
        print('KNOWN-FINDING: property=%s %s' % (PROP, k))
    cov = {'obligations': total, 'discharged': ok, 'checker_cmd': 'python3-vt /verif/check.py %s %s' % (PROP, TIER), 'trusted_base': TRUSTED,
           'functions': funcs, 'functions_under_contract': len(funcs), 'back_ends': be, 'solver_time_s': round(st, 1),
           'inlined_helpers': sorted(inl), 'external_functions_trusted': sorted(ext)}
    assume = list(ASSUME)
    for i in ids:
        for a in B.UNITS[i].assumptions:
            if a not in assume:
                assume.append(a)
    evidence(cov, viol, None, None, assume)
    print('%s: %d/%d obligations discharged in %d functions, %.1f s' % (PROP, ok, total, len(funcs), time.time() - T0))
    return 1 if viol else 0


def evidence(cov, viol, a, b, assume):
    if not isinstance(cov, dict):
        cov = {'obligations': 1, 'discharged': 0, 'checker_cmd': 'check.py', 'trusted_base': TRUSTED}
    with open(os.path.join(EV, PROP + '.json'), 'w') as f:
        json.dump({'property': PROP, 'tier': TIER, 'seed': SEED, 'level': 'proof', 'coverage': cov, 'assumptions': assume,
                   'wall_s': round(time.time() - T0, 2), 'violations': viol}, f, indent=1)


def witness(secs):
    """search for a concrete failing run of the real code (only used to illustrate a failed obligation)"""
    try:
        from witness import run as W
        return W.search(PROP, SEED, secs)
    except Exception as x:
        return None


sys.exit(main())
