#!/usr/bin/env python3-vt
"""check.py <property> quick|thorough

Decides one property: (1) regenerates the proof obligations of the functions
the property depends on from /repo's current sources and discharges them,
(2) builds and runs the property's replay harness against the same sources, to
turn a failed obligation into a concrete failing input (and as the bounded
stand-in for functions the generator cannot translate).

exit 0: held; exit 1: a VIOLATION line was printed.  Never anything else."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':        # same order of everything on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
from vcx import astload, run
from props import PROPS

REPO = astload.REPO
T0 = time.time()


def harness(h, work, tier, seed, out):
    """build and run; out gets status ok|fail|unavailable"""
    try:
        conf = astload.write_config(os.path.join(work, 'conf'))
        exe = os.path.join(work, 'harness')
        t = time.time()
        san = h.get('san', 'address,undefined')
        base = ['clang++', '-g', '-O1', '-w'] + (['-fsanitize=' + san, '-fno-sanitize-recover=undefined'] if san else [])
        flags = astload.cflags(conf, ['-I' + V + '/harness', '-DREPO_DIR="%s"' % REPO] + h.get('defs', []))
        srcs = [V + '/harness/' + h['src']] + [V + '/stubs/' + s for s in h.get('stubs', [])] + [REPO + '/' + s for s in h.get('repo', [])]
        procs, objs = [], []
        for i, s in enumerate(srcs):
            o = os.path.join(work, 'h%d.o' % i)
            objs.append(o)
            procs.append((s, subprocess.Popen(base + flags + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            o = p.communicate(timeout=400)[0]
            if p.returncode:
                out.update(status='unavailable', detail='does not compile: %s: %s' % (s, o[:2000])); return
        p = subprocess.run(base + objs + ['-o', exe] + h.get('libs', ['-lyaz', '-lxml2']), capture_output=True, text=True, timeout=200)
        if p.returncode:
            out.update(status='unavailable', detail='does not link: %s' % p.stderr[:2000]); return
        out['build_s'] = round(time.time() - t, 1)
        secs = h.get('secs', 25) if tier == 'quick' else h.get('tsecs', 240)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0' % h.get('leaks', 0),
                   UBSAN_OPTIONS='print_stacktrace=0', TSAN_OPTIONS='halt_on_error=1')
        lim = h.get('limit', 120) if tier == 'quick' else 700
        runs = 1 if tier == 'quick' else h.get('seeds', 2)
        wd = os.path.join(work, 'cwd'); os.makedirs(wd, exist_ok=True)
        out['runs'] = []
        for k in range(runs):
            cmd = [exe, h.get('mode', 'all'), tier, str(seed + k), str(secs)]
            try:
                p = subprocess.run(cmd, capture_output=True, timeout=lim, env=env, cwd=wd)
            except subprocess.TimeoutExpired as e:
                so = (e.stdout or b'').decode(errors='replace')
                out.update(status='unavailable' if 'FAIL' not in so else 'fail', detail='harness time limit', stdout=so[-3000:])
                if out['status'] == 'fail': return
                continue
            so, se = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
            m = re.search(r'^FAIL (.*)$', so, re.M)
            st = re.search(r'STATS evaluations=(\d+) nontrivial=(\d+)', so)
            out['runs'].append(dict(cmd=' '.join(cmd[1:]), evaluations=int(st.group(1)) if st else 0, nontrivial=int(st.group(2)) if st else 0,
                                    samples=re.findall(r'^SAMPLE (.*)$', so, re.M)[:3]))
            if p.returncode != 0 or m:
                if m or p.returncode < 0 or 'Sanitizer' in se or 'runtime error' in se:
                    out.update(status='fail', detail=(m.group(1) if m else 'crash (exit %d)' % p.returncode)[:3000], stdout=so[-3000:], stderr=se[:6000])
                else:
                    out.update(status='unavailable', detail='harness ended with exit %d: %s' % (p.returncode, se[:500]))
                return
        out.setdefault('status', 'ok')
    except Exception as e:
        out.update(status='unavailable', detail='harness error: %s' % e)


def known():
    ks = []
    try:
        for l in open(V + '/known_findings.txt'):
            m = re.match(r'known: property=(\S+) match=(.*?) :: (.*)$', l.strip())
            if m: ks.append(m.groups())
    except OSError:
        pass
    return ks


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    os.makedirs(V + '/evidence/replay', exist_ok=True)
    work = tempfile.mkdtemp(prefix='vcheck-%s-' % pid)
    rc = 0
    try:
        rc = decide(pid, P, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def decide(pid, P, tier, seed, work):
    hs = P.get('harness') or []
    if isinstance(hs, dict): hs = [hs]
    houts, ths = [], []
    for i, h in enumerate(hs):
        w = os.path.join(work, 'h%d' % i); os.makedirs(w)
        o = dict(name=h['src'])
        houts.append(o)
        th = threading.Thread(target=harness, args=(h, w, tier, seed, o)); th.start(); ths.append(th)
    results = []
    for spec, only in P.get('specs', []):
        budget = (P.get('budget', 400) if tier == 'quick' else 2400)
        try:
            m = importlib.import_module('specs.' + spec)
            results += run.verify_units(m.UNITS, os.path.join(work, 'vcx'), tmo=15 if tier == 'quick' else 60, cross=(tier == 'thorough'),
                                        only=only, budget=budget, abort=lambda: any(o.get('status') == 'fail' for o in houts))
        except Exception as e:
            traceback.print_exc()
            print('obligations of %s could not be generated: %s' % (spec, e))
    for th in ths: th.join()
    rel = P.get('kinds') or (lambda o: True)
    obls = [o for r in results for o in r['obls'] if rel(o)]
    failed = [o for o in obls if o['status'] != 'proved']
    unsup = [(r['fn'], r['unsupported']) for r in results if r['unsupported'] and not r['missing']]
    missing = [r['fn'] for r in results if r['missing']]
    viol = []
    ks = [k for k in known() if k[0] == pid]
    printed = set()

    def is_known(text):
        for k in ks:
            if re.search(k[1], text):
                if k not in printed:
                    printed.add(k); print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
                return True
        return False
    hfail = [o for o in houts if o.get('status') == 'fail']
    nf = 0
    for o in hfail:
        if is_known(o['detail']): continue
        path = '%s/evidence/replay/%s-input.txt' % (V, pid)
        with open(path, 'w') as f:
            f.write('property %s: failing input found by replaying on the real code\n\n%s\n\nharness %s\n--- stdout\n%s\n--- stderr\n%s\n' % (
                pid, o['detail'], o['name'], o.get('stdout', ''), o.get('stderr', '')))
            f.write('\nfailed obligations: %d\n' % len(failed))
            for x in failed[:50]: f.write('  %s %s %s: %s [%s]\n' % (x['fn'], x['kind'], x['where'], x['name'], x['status']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        viol.append(o['detail'])
    fk = [o for o in failed if not is_known('%s|%s|%s' % (o['fn'], o['kind'], o['name']))]
    if fk and not viol:
        path = '%s/evidence/replay/%s-obligation.txt' % (V, pid)
        with open(path, 'w') as f:
            f.write('property %s: obligation(s) no longer discharged; no failing input found\n\n' % pid)
            for o in fk:
                f.write('function %s\nobligation %s\nkind %s\nplace %s\nstatus %s (%s)\n%s\n\n' % (o['fn'], o['name'], o['kind'], o['where'], o['status'], o['backend'], o['detail']))
            f.write('\n--- SMT-LIB of the first one\n%s\n' % fk[0].get('smt2', '')[:100000])
        print('failed obligation: %s: %s (%s) at %s' % (fk[0]['fn'], fk[0]['name'], fk[0]['kind'], fk[0]['where']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        viol += ['%s: %s' % (o['fn'], o['name']) for o in fk]
    for fn, why in unsup: print('not translated (bounded stand-in only): %s: %s' % (fn, why[:300]))
    for fn in missing: print('not present as a separate function: %s' % fn)
    for o in houts:
        if o.get('status') == 'unavailable': print('harness unavailable: %s' % o['detail'][:600])
    write_evidence(pid, P, tier, seed, results, obls, unsup, missing, houts, viol)
    proved = sum(o['status'] == 'proved' for o in obls)
    ev = sum(r['evaluations'] for o in houts for r in o.get('runs', []))
    print('%s %s: %d/%d obligations discharged over %d functions, %d replayed inputs, %.0f s' % (
        pid, tier, proved, len(obls), len(results) - len(unsup) - len(missing), ev, time.time() - T0))
    if viol: return 1
    if not proved and not any(o.get('status') == 'ok' for o in houts): return 2   # nothing decided
    return 0


def write_evidence(pid, P, tier, seed, results, obls, unsup, missing, houts, viol):
    byb, loops = {}, []
    for o in obls: byb[o['backend']] = byb.get(o['backend'], 0) + 1
    externs, inl, dropped, models = {}, {}, set(), set()
    fns = {}
    for r in results:
        if r['unsupported']: continue
        mine = [o for o in r['obls'] if o in obls] if P.get('kinds') else r['obls']
        fns[r['fn']] = dict(obligations=len(mine), discharged=sum(o['status'] == 'proved' for o in mine))
        for k, v in r['externs'].items(): externs[str(k)] = externs.get(str(k), 0) + v
        for k, v in r['inlined'].items(): inl[str(k)] = inl.get(str(k), 0) + v
        dropped |= set(r['dropped']); models |= set(r['models'])
        loops += [dict(fn=l[0], at=l[1], invariants=l[2], measure=l[3]) for l in r['loops']]
    assume = list(P.get('assumptions', []))
    for spec, only in P.get('specs', []):
        m = importlib.import_module('specs.' + spec)
        assume += getattr(m, 'ASSUME', []) + ['axiom: ' + a for a in getattr(m, 'AXTEXT', [])]
    assume.append('machine integers: int/long/size_t arithmetic is mathematical with overflow obligations for signed types; char is signed')
    if externs: assume.append('assumed contracts of library functions: ' + ', '.join(sorted(externs)))
    if models: assume.append('assumed models of library classes: ' + ', '.join(sorted(models)))
    if dropped: assume.append('dropped by the translation: ' + ', '.join(sorted(dropped)))
    cov = dict(
        obligations=len(obls), discharged=sum(o['status'] == 'proved' for o in obls),
        checker_cmd='python3-vt /verif/check.py %s %s' % (pid, tier),
        trusted_base=['vcx (this repository): clang AST to obligations', 'clang 18 front end', 'z3 %s' % ver(), 'assumed library contracts listed under assumptions'],
        functions_under_contract=fns, inlined_functions=inl, by_back_end=byb,
        solver_s=round(sum(o['time'] for o in obls), 2), generation_s=round(sum(r.get('gen_s', 0) for r in results), 2),
        loops=loops, not_translated_bounded_only=[dict(fn=f, why=w[:500]) for f, w in unsup], absent=missing,
        replay=[{k: v for k, v in o.items() if k not in ('stdout', 'stderr')} for o in houts])
    level = P.get('level', 'proof')
    if not obls:
        level = 'exploration'
        rr = [r for o in houts for r in o.get('runs', [])]
        cov.update(evaluations=sum(r['evaluations'] for r in rr), distinct_nontrivial=sum(r['nontrivial'] for r in rr),
                   rule='bounded stand-in: harness inputs, see harness source', samples=[s for r in rr for s in r['samples']])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assume, wall_s=round(time.time() - T0, 1), violations=len(viol))
    with open('%s/evidence/%s.json' % (V, pid), 'w') as f: json.dump(ev, f, indent=1)


def ver():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
