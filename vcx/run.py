"""Runs contracts: one worker process per function under contract, results are
plain data (obligation name, place, status, back end, time)."""
import sys, time, os, traceback
if os.environ.get('PYTHONHASHSEED') != '0' and __name__ == '__main__':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-m', 'vcx.run'] + sys.argv[1:])
import multiprocessing as mp
from multiprocessing.connection import wait
from . import astload, core, solve


def one(tu, contracts, con, install, workdir, tmo, cross, jobs, scale, deadline):
    """verify one function -> result dict"""
    ex = core.Exec(tu, None, workdir, quick_ms=600 * scale, feas_ms=100 * scale)
    ex.jobs = jobs
    r = dict(fn=con.qname.split('metaproxy_1::')[-1], qname=con.qname, obls=[], unsupported=None, missing=False,
             externs={}, inlined={}, dropped=[], models=[], loops=[], gen_s=0.0, quick_s=0.0, nquick=0, scale=scale)
    t1 = time.time()
    try:
        install(ex)
        ex.contracts = [c for c in contracts if not c.inline and not c.standalone]
        if hasattr(con, 'lemmas'):
            for nm, hyp, goal in con.lemmas(ex):
                ex.obls.append(core.Obligation(nm, tuple(hyp), goal, 'specification', con.qname, 'lemma'))
            ex.cur_fn = con.qname
        elif not tu.find(con.qname, con.nparams, con.types):
            r['missing'] = True
            r['unsupported'] = 'function not found'
            return r
        if not hasattr(con, 'lemmas'): ex.verify(con)
    except core.Unsupported as e:
        r['unsupported'] = str(e)
        return r
    except RecursionError:
        r['unsupported'] = 'recursion limit'
        return r
    except Exception as e:
        if os.environ.get('VCX_DEBUG'): traceback.print_exc()
        r['unsupported'] = 'generator error: %s: %s [%s]' % (type(e).__name__, e, traceback.format_exc().strip().split('\n')[-3].strip())
        return r
    r['fn'] = ex.cur_fn
    r['gen_s'] = time.time() - t1
    obls = ex.obls
    solve.discharge(ex.axioms, obls, tmo, jobs=jobs, cross=cross)
    for o in obls:
        d = dict(fn=o.fn, name=o.name, where=o.where, kind=o.kind, status=o.status, time=round(o.time or 0, 3),
                 backend=o.backend, detail=o.detail)
        if o.status != 'proved':
            try: d['smt2'] = solve.smt2(ex.axioms, o)[:300000]
            except Exception: d['smt2'] = ''
        r['obls'].append(d)
    r['externs'], r['inlined'] = dict(ex.used_extern), dict(ex.inlined)
    r['dropped'], r['models'], r['loops'] = sorted(map(str, ex.dropped)), sorted(map(str, ex.lib_notes)), ex.loopinfo
    r['quick_s'], r['nquick'] = ex.solver_s, ex.nquick
    return r


def job(tu, contracts, con, install, workdir, tmo, cross, jobs, deadline, conn):
    try:
        r = one(tu, contracts, con, install, workdir, tmo, cross, jobs, 1, deadline)
        bad = sum(o['status'] != 'proved' for o in r['obls'])
        left = deadline - time.time()
        if bad and not r['unsupported'] and r['gen_s'] * 4 < left and not os.environ.get('VCX_NORETRY'):
            # retry with larger budgets before believing a failure; what is known now stands if the time runs out
            conn.send(dict(r, more=True))
            r2 = one(tu, contracts, con, install, workdir, tmo, cross, jobs, 4, deadline)
            if not r2['unsupported'] and sum(o['status'] != 'proved' for o in r2['obls']) < bad: r = r2
        conn.send(r)
    except Exception as e:
        conn.send(dict(fn=con.qname, qname=con.qname, obls=[], unsupported='worker error %s' % e, missing=False))
    conn.close()
    os._exit(0)


def verify_units(units, workdir, tmo=20, cross=False, only=None, verbose=False, budget=600, procs=4, abort=None):
    """-> list of per function results"""
    deadline = time.time() + budget
    out, todo = [], []
    ctx = mp.get_context('fork')
    for src, contracts, install in units:
        cons = [c for c in contracts if not c.assumed and (not only or c.qname.split('::')[-1] in only or c.qname in only)]
        if not cons: continue
        try:
            tu = astload.TU(src, workdir)
        except astload.ExtractError as e:
            for c in cons:
                out.append(dict(fn=c.qname, qname=c.qname, obls=[], unsupported=str(e), missing=False))
            continue
        for c in cons: todo.append((tu, contracts, c, install))
    todo.sort(key=lambda x: -getattr(x[2], 'cost', 1))
    live, first = {}, {}
    stopped = False
    procs = max(1, min(procs, len(todo)))
    jobs = max(2, 8 // procs)
    while todo or live:
        while todo and len(live) < procs:
            tu, contracts, c, install = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=job, args=(tu, contracts, c, install, workdir, tmo, cross, jobs, deadline, b))
            p.start(); b.close()
            live[a] = (p, c)
        rs = wait(list(live), timeout=max(0.1, min(1.0, deadline + 30 - time.time())))
        if abort and not stopped and abort():      # a failing input is known: no need to search on
            stopped = True
            deadline = min(deadline, time.time() + 15 - 30)
        if not rs and time.time() > deadline + 30:
            why = 'stopped: a failing input is already known' if stopped else 'time budget exhausted'
            for a, (p, c) in live.items():
                out.append(first.get(a) or dict(fn=c.qname, qname=c.qname, obls=[], unsupported=why, missing=False))
                os.system('pkill -9 -P %d >/dev/null 2>&1' % p.pid); p.kill(); p.join()
            for tu, contracts, c, install in todo:
                out.append(dict(fn=c.qname, qname=c.qname, obls=[], unsupported=why, missing=False))
            break
        for a in rs:
            p, c = live[a]
            try: r = a.recv()
            except EOFError:
                r = first.get(a) or dict(fn=c.qname, qname=c.qname, obls=[], unsupported='worker died', missing=False)
            if r.pop('more', None):
                first[a] = r
                continue
            del live[a]
            p.join()
            out.append(r)
            if verbose:
                if r['unsupported']:
                    print('UNSUPPORTED', r['fn'], r['unsupported']); continue
                bad = [o for o in r['obls'] if o['status'] != 'proved']
                print('%-60s %4d obligations, %d not proved, gen %.1fs (quick %d/%.1fs) solve %.1fs%s' % (
                    r['fn'], len(r['obls']), len(bad), r['gen_s'], r['nquick'], r['quick_s'], sum(o['time'] for o in r['obls']),
                    '' if r['scale'] == 1 else ' (retry)'))
                for o in bad:
                    print('   NOT PROVED [%s] %s %s: %s %s' % (o['status'], o['kind'], o['where'], o['name'], o['detail'][:600]))
    return out


if __name__ == '__main__':
    import importlib
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.setrecursionlimit(20000)
    m = importlib.import_module('specs.' + sys.argv[1])
    r = verify_units(m.UNITS, '/tmp/vcxw', only=sys.argv[2:] or None, verbose=True)
    if os.environ.get('VCX_SLOW'):
        for o in sorted([o for x in r for o in x['obls']], key=lambda o: -o['time'])[:10]: print(o['time'], o['fn'], o['where'], o['name'], o['backend'])
