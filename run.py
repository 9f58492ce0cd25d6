#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough]   decide one property
   run.py --replay <file>                       replay a recorded counterexample on the real code
   run.py --list"""
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
VENV = '/opt/venv/bin/python'
if os.environ.get('AMAT_VERIF_CHILD') != '1' and sys.executable != VENV and os.path.exists(VENV):
    os.environ['AMAT_VERIF_CHILD'] = '1'
    os.execv(VENV, [VENV] + sys.argv)
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['OMP_NUM_THREADS'] = '1'
os.environ['OPENBLAS_NUM_THREADS'] = '1'
sys.dont_write_bytecode = True
if HERE not in sys.path:
    sys.path.insert(0, HERE)
if VT not in sys.path:
    sys.path.append(VT)

GROUPS = {}


def load_checks():
    from sx import reg
    import importlib
    for f in sorted(os.listdir(os.path.join(HERE, 'checks'))):
        if f.endswith('.py') and f != '__init__.py' and not f.startswith('_'):
            importlib.import_module('checks.' + f[:-3])
    return reg


def child(idx, h, tier, seed, deadline, q, known):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 * 2 ** 30, 10 * 2 ** 30))
    except Exception:
        pass
    from sx import engine, core
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    import signal

    def stop(*a):
        raise engine.Stop('time budget exhausted')
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(max(5, int(deadline + 60 - time.time())))
    st = engine.Stats()
    t0 = time.time()
    out = dict(name=h.name, idx=idx)
    res = engine.Result(h.name)
    try:
        o = h.opts
        tm = o.get('timeout_ms', 20000) * (3 if tier == 'thorough' else 1)
        engine.decide_harness(h.fn, h.name, MODS[0], MODS[1], tier, seed, known=known, timeout_ms=tm,
                                  max_paths=o.get('max_paths', 400), deadline=deadline, hunt=o.get('hunt', 200),
                                  validate=o.get('validate', 2) * (5 if tier == 'thorough' else 1), stats=st,
                                  branch_ms=o.get('branch_ms', 2000), res=res)
    except (core.Unsupported, engine.PathLimit) as e:
        out.update(error='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc())
    except BaseException as e:
        out.update(error='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc())
    signal.alarm(0)
    out.update(res.__dict__)
    if out.get('error') and not res.violations:
        # nothing decided symbolically: look for a failing input on the real code
        import random
        core.HOOKS.decide = None
        try:
            signal.signal(signal.SIGALRM, stop)
            signal.alarm(90)
            out['violations'] = engine.search_concrete(h.fn, h.name, MODS[1], tier, random.Random(seed * 7919 + engine.hash_name(h.name)), known, set(), 400)
        except BaseException:
            pass
        signal.alarm(0)
    out['stats'] = st.__dict__
    out['wall'] = time.time() - t0
    out['atoms'] = len(core.ATOMS)
    q.put(json.dumps(out, default=str))


MODS = [None, None]


def known_findings():
    out = []
    p = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out


def is_known(prop, harness, v, kf):
    for k in kf:
        if k.get('status') != 'known' or k['property'] != prop or k['harness'] != harness:
            continue
        labs = v['failing'] or [v['label']]
        if all(any(l.startswith(p) for p in k['labels']) for l in labs):
            return k
    return None


def main():
    args = sys.argv[1:]
    from sx import shim
    os.chdir(shim.REPO)
    if args and args[0] == '--list':
        reg = load_checks()
        for p in sorted(reg.REG):
            print(p, len(reg.REG[p]), [h.name for h in reg.REG[p]])
        return 0
    if args and args[0] == '--replay':
        return replay(args[1])
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    only = args[args.index('--only') + 1] if '--only' in args else None
    verbose = '-v' in args
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    reg = load_checks()
    hs = [h for h in reg.REG.get(prop, []) if (h.opts.get('tier', 'quick') == 'quick' or tier == 'thorough')]
    if only:
        hs = [h for h in hs if only in h.name]
    if not hs:
        print('no harness for', prop)
        return 2
    MODS[1] = shim.load(False)
    MODS[0] = shim.load(True)
    kf = known_findings()
    budget = 560 if tier == 'quick' else 3000
    deadline = t0 + budget
    ncpu = max(1, min(8, os.cpu_count() or 1))
    ctx = mp.get_context('fork')
    results = {}
    running = {}
    queue = list(enumerate(hs))
    queue.sort(key=lambda x: -x[1].opts.get('cost', 1))
    stop_at, found = deadline + 180, False
    while queue or running:
        while queue and len(running) < ncpu:
            i, h = queue.pop(0)
            q = ctx.SimpleQueue()
            kl = [l for k in kf if k.get('status') == 'known' and k['property'] == prop and k['harness'] == h.name for l in k['labels']]
            p = ctx.Process(target=child, args=(i, h, tier, seed, deadline - 20, q, kl))
            p.start()
            running[i] = (p, q, h)
        for i in list(running):
            p, q, h = running[i]
            if not q.empty():
                results[i] = json.loads(q.get())
                p.join()
                del running[i]
                kn = [v for v in results[i].get('violations', []) if not is_known(prop, h.name, v, kf)]
                if kn and not found:
                    found = True
                    stop_at = min(stop_at, time.time() + 120)
            elif not p.is_alive():
                if not q.empty():
                    continue
                results[i] = dict(name=h.name, error='worker died (exit %s)' % p.exitcode, stats={}, wall=0)
                del running[i]
            elif time.time() > stop_at:
                p.kill()
                results[i] = dict(name=h.name, error='stopped, a violation was already found' if found else 'time budget exhausted', stats={}, wall=time.time() - t0)
                del running[i]
        time.sleep(0.01)
    rc = 0
    viol, errs, knownl = [], [], []
    tot = {}
    cov_h = []
    samples = []
    funcs = set()
    for i, h in enumerate(hs):
        r = results[i]
        funcs.update(h.funcs)
        for k, v in r.get('stats', {}).items():
            if isinstance(v, (int, float)):
                tot[k] = max(tot.get(k, 0), v) if k == 'slowest' else tot.get(k, 0) + v
        for v in r.get('violations', []):
            k = is_known(prop, h.name, v, kf)
            if k:
                knownl.append(k['what'])
            else:
                viol.append((h, v))
        if r.get('error'):
            errs.append((h.name, r['error'], r.get('tb', '')))
        for x in r.get('inconclusive', []):
            errs.append((h.name, 'inconclusive: %s' % (x[:2],), str(x[2]) if len(x) > 2 else ''))
        if not r.get('error') and not r.get('witness') and not r.get('violations'):
            errs.append((h.name, 'vacuous: no reachable obligation', ''))
        if not r.get('error') and not r.get('obligations'):
            errs.append((h.name, 'vacuous: no obligation', ''))
        samples += ['%s: %s' % (h.name, x) for x in r.get('samples', [])[:2]]
        cov_h.append(dict(harness=h.name, bounds=h.bounds, paths=r.get('paths', 0), obligations=r.get('obligations', 0),
                          proved=r.get('proved', 0), within_tolerance=r.get('tolerance_proofs', 0), exceptional_paths=r.get('exc_paths', 0),
                          reachable=bool(r.get('witness')), encoding_validated_on=r.get('validated', 0), wall_s=round(r.get('wall', 0), 2),
                          queries=r.get('stats', {}).get('queries', 0) + r.get('stats', {}).get('branch_queries', 0),
                          domain_questions=r.get('domain', {}), notes=sorted(set(r.get('notes', [])))[:5]))
        if verbose:
            print('%-34s paths=%-4s obl=%-5s proved=%-5s q=%s/%s slow=%.1fs wall=%.1fs val=%s %s' % (
                h.name, r.get('paths'), r.get('obligations'), r.get('proved'), r.get('stats', {}).get('queries'),
                r.get('stats', {}).get('branch_queries'), r.get('stats', {}).get('slowest', 0), r.get('wall', 0), r.get('validated'), '/'.join(str(x) for x in (r.get('domain') or {}).values()) + ' ' + str(r.get('notes') or '')))
    for w in sorted(set(knownl)):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    rdir = os.environ.get('VERIF_EVID') or os.path.join(HERE, 'replays')
    vlist = []
    if viol:
        os.makedirs(rdir, exist_ok=True)
    for n, (h, v) in enumerate(viol):
        path = os.path.join(rdir, '%s-%d.json' % (prop, n))
        v['property'] = prop
        v['tier'] = tier
        json.dump(v, open(path, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('   harness %s, obligation %s: got %s, expected %s%s; inputs %s' % (
            h.name, v['label'], v['got'], v['want'], (' (%s)' % v['exc']) if v['exc'] else '', json.dumps(v['values'])[:600]))
        vlist.append(dict(summary='%s: %s' % (h.name, v['label']), replay=path))
        rc = 1
    groups = {}
    for e in errs:
        groups.setdefault(e[:2], []).append(e[2])
    for k, x in list(groups.items())[:30]:
        print('INCONCLUSIVE %s %s: %s%s' % (prop, k[0], k[1], ' (%d times)' % len(x) if len(x) > 1 else ''))
        if verbose:
            print(x[0][-3000:])
    decided = any(c['proved'] for c in cov_h)
    if rc == 0 and errs and ('--strict' in args or not decided):
        rc = 2
    m = reg.META.get(prop, {})
    ev = dict(property=prop, tier=tier, seed=seed, level=m.get('level', 'model_checking'), wall_s=round(time.time() - t0, 2),
              coverage=dict(
                  explanation='states = symbolic end states (feasible paths), transitions = branch decisions on them; real functions executed on symbolic values from the current /repo source; every obligation of every feasible path decided by z3 (unsat of path condition and not(obligation)); counterexamples replayed on untouched modules',
                  functions_encoded=sorted(funcs), bounds=m.get('bounds', ''), harnesses=cov_h,
                  states=tot.get('paths', 0), transitions=tot.get('decisions', 0), traces_validated_against_impl=sum(c['encoding_validated_on'] for c in cov_h),
                  samples=samples[:12], violations_found=vlist, obligations=sum(c['obligations'] for c in cov_h), proved=sum(c['proved'] for c in cov_h),
                  queries_discharged=tot.get('queries', 0), branch_feasibility_queries=tot.get('branch_queries', 0),
                  queries_closed_by_normal_form=tot.get('trivial', 0), solver_time_s=round(tot.get('time', 0), 3),
                  slowest_query_s=round(tot.get('slowest', 0), 3), inconclusive=len(errs), inconclusive_parts=[list(e[:2]) for e in errs][:20], known_findings=sorted(set(knownl)),
                  solver='z3 %s (QF_NRA/nlsat, then default tactic)' % z3v()),
              assumptions=m.get('assumptions', []) + COMMON_ASSUMPTIONS,
              violations=len(viol))
    evd = os.environ.get('VERIF_EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d harnesses, %d paths, %d obligations, %d proved, %d violations, %d inconclusive, %.1f s' % (
        prop, tier, len(hs), tot.get('paths', 0), ev['coverage']['obligations'], ev['coverage']['proved'], len(viol), len(errs), time.time() - t0))
    return rc


def z3v():
    import z3
    return z3.get_version_string()


COMMON_ASSUMPTIONS = [
    'IEEE doubles are treated as real numbers; float literals are read as their decimal value',
    'a path on which the real-valued result is undefined (division by zero, root of a negative) is outside the claim unless a harness says otherwise',
    'array lengths are the ones stated per harness',
]


def replay(path):
    from sx import shim, engine
    v = json.load(open(path))
    reg = load_checks()
    h = [x for x in reg.REG[v['property']] if x.name == v['harness']][0]
    con = shim.load(False)
    uf = {k: [(list(a), b) for a, b in l] for k, l in v.get('uf', {}).items()}
    st, c, exc = engine.run_concrete(h.fn, con, v['values'], v.get('tier', 'quick'), uf)
    fl = engine.fails(st, c, exc)
    for f in fl:
        print('FAILS', f[0], 'got', f[2], 'expected', f[3])
    if not fl:
        print('does not fail (status %s)' % st)
    return 1 if fl else 0


if __name__ == '__main__':
    sys.exit(main())
