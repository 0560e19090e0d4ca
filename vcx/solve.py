"""Discharges obligations: z3 (in process, one fork per core), then the
installed z3 4.8 and cvc5 binaries on anything left."""
import os, time, subprocess, tempfile, multiprocessing as mp
import z3


def smt2(axioms, o):
    s = z3.Solver()
    for a in axioms: s.add(a)
    for p in o.pc: s.add(p)
    s.add(z3.Not(o.goal))
    return s.to_smt2()


def run_ext(cmd, text, tmo):
    t = time.time()
    try:
        p = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=tmo + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else p.stderr[:200]
    except subprocess.TimeoutExpired:
        out = 'timeout'
    except OSError as e:
        out = 'error %s' % e
    return out, time.time() - t


def solve_one(axioms, o, tmo, cross):
    g = z3.simplify(o.goal)
    t0 = time.time()
    if z3.is_true(g):
        return ('proved', 0.0, 'simplifier', '')
    # run times vary widely with the seed: short attempts with several before the long ones
    for mbqi, seed, part in ((False, 0, 0.25), (False, 1, 0.2), (False, 2, 0.2), (True, 0, 0.5), (False, 3, 0.3), (False, 4, 0.5)):
        s = z3.Solver()
        s.set('timeout', int(tmo * 1000 * part))
        s.set('mbqi', mbqi)
        if seed: s.set('random_seed', seed)
        for a in axioms: s.add(a)
        for p in o.pc: s.add(p)
        s.add(z3.Not(o.goal))
        r = s.check()
        if r != z3.unknown: break
    dt = time.time() - t0
    be = 'z3-%s' % z3.get_version_string()
    st, detail = 'failed', ''
    if r == z3.unsat:
        st = 'proved'
    elif r == z3.sat:
        m = s.model()
        detail = 'counterexample: ' + ', '.join('%s=%s' % (d.name(), m[d]) for d in m.decls()
                                               if d.arity() == 0 and '!' not in d.name())[:1500]
        st = 'refuted'
    else:
        detail = 'unknown: ' + s.reason_unknown()
        st = 'unknown'
    if st == 'unknown' or (cross and st == 'proved'):
        txt = s.to_smt2()
        others = [('cvc5', ['cvc5', '--lang=smt2', '--strings-exp', '--tlimit=%d' % int(tmo * 1000), '-']),
                  ('z3-4.8.12', ['z3', '-in', '-smt2', '-T:%d' % int(tmo)])]
        for nm, cmd in others:
            out, d2 = run_ext(cmd, txt, tmo)
            dt += d2
            if out == 'unsat':
                if st == 'unknown':
                    st, be, detail = 'proved', nm, ''
                else:
                    be += '+' + nm
                break
            if out == 'sat' and st == 'proved':
                st, detail = 'failed', 'back ends disagree: %s says sat' % nm
                break
            if out == 'sat' and st == 'unknown':
                st, detail = 'refuted', 'refuted by %s' % nm
                break
    return (st, dt, be, detail)


def worker(axioms, obls, tmo, cross, idx, conn):
    for i in idx:
        try:
            r = solve_one(axioms, obls[i], tmo, cross)
        except Exception as e:
            r = ('unknown', 0.0, 'none', 'solver error %s' % e)
        conn.send((i, r))
    conn.send(None)
    conn.close()


def discharge(axioms, obls, tmo=20, jobs=None, cross=False):
    jobs = jobs or min(8, os.cpu_count() or 1)
    todo = []
    for i, o in enumerate(obls):
        if z3.is_true(o.goal):
            o.status, o.time, o.backend = 'proved', 0.0, 'simplifier'
        else:
            todo.append(i)
    ctx = mp.get_context('fork')
    procs = []
    for j in range(min(jobs, max(1, len(todo)))):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=worker, args=(axioms, obls, tmo, cross, todo[j::jobs], b), daemon=True)
        p.start(); b.close()
        procs.append((p, a))
    from multiprocessing.connection import wait
    live = {a: p for p, a in procs}
    while live:
        ready = wait(list(live), timeout=60 + 6 * tmo)
        if not ready:                # every query is limited: a worker silent for so long is stuck
            for p in live.values(): p.kill()
            break
        for c in ready:
            try:
                m = c.recv()
            except EOFError:
                m = None
            if m is None:
                del live[c]; continue
            i, (obls[i].status, obls[i].time, obls[i].backend, obls[i].detail) = m
    for p, a in procs: p.join()
    for i in todo:
        if obls[i].status is None:
            obls[i].status, obls[i].time, obls[i].backend, obls[i].detail = 'unknown', 0, 'none', 'worker died'
    return obls
