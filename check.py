#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]        decide one property
   check.py --replay FILE                           re-run one recorded counterexample natively
Exit status: 0 held on everything explored, 1 VIOLATION printed, 2 the check itself failed."""
import os, sys, json, time, tempfile, shutil, signal, subprocess, importlib, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.insert(0, os.path.join(VERIF, 'props'))
sys.dont_write_bytecode = True


def child(task, out):
    import resource
    import vprun
    sys.setrecursionlimit(100000)
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, resource.RLIM_INFINITY))
    r = vprun.run_task((task, False))
    with open(out + '.tmp', 'w') as f:
        json.dump(r, f, default=str)
    os.rename(out + '.tmp', out)


def run_all(tasks, jobs, budget, shared):
    """fork one process per task, at most `jobs` at a time, killing what outlives its limit"""
    import threading
    results, running, queue = {}, {}, list(range(len(tasks)))
    queue.sort(key=lambda k: -tasks[k].weight)
    t0 = time.time()
    while queue or running:
        while queue and len(running) < jobs:
            if time.time() - t0 > budget:
                for k in queue:
                    results[k] = dict(name=tasks[k].name, error='not started: check time budget used up', notstarted=True)
                queue = []
                break
            k = queue.pop(0)
            out = os.path.join(shared, 'r%d.json' % k)
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                rc = 0
                try:
                    sys.stdout.flush()
                    child(tasks[k], out)
                except BaseException as e:
                    sys.stderr.write('task %s: %r\n' % (tasks[k].name, e))
                    rc = 3
                os._exit(rc)
            running[pid] = (k, out, time.time())
        if not running:
            break
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, (k, out, ts) in list(running.items()):
                if now - ts > tasks[k].timeout + 30 or now - t0 > budget + 60:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
            time.sleep(0.03)
            continue
        if pid not in running:
            continue
        k, out, ts = running.pop(pid)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        if os.path.exists(out):
            results[k] = json.load(open(out))
        else:
            results[k] = dict(name=tasks[k].name, error='task ended without a result (status %d after %d s)' % (st, time.time() - ts))
    return [results[k] for k in range(len(tasks))]


def known(pid):
    out = []
    f = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    for e in json.load(open(f)).get('findings', []):
        if e['property'] == pid:
            out.append(e)
    return out


def matches(e, task, v):
    if e['task'] != task:
        return False
    if 'inputs' in e and [str(x) for x in v['inputs']] != [str(x) for x in e['inputs']]:
        return False
    return not e.get('what') or e['what'] in v['what'] or e['what'] in v['native']


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay_file(a[1])
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    only = a[a.index('--only') + 1] if '--only' in a else None
    verbose = '-v' in a
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module(pid)
    shared = tempfile.mkdtemp(prefix='vprun_')
    os.environ['VP_SHARED'] = shared
    import vprun
    vprun._shared = shared
    tasks = [t for t in mod.tasks(tier) if not only or re.search(only, t.name)]
    t0 = time.time()
    budget = 780 if tier == 'quick' else 6 * 3600
    if 'VP_BUDGET' in os.environ:
        budget = int(os.environ['VP_BUDGET'])
    try:
        # compile every /repo source once
        seen = set()
        for t in tasks:
            for s in t.sources:
                key = (s, tuple(t.src_defs.get(s, [])))
                if key not in seen:
                    seen.add(key)
                    try:
                        vprun.compile_ir(vprun.src_path(s), os.path.join(shared, 'x.ll'), t.src_defs.get(s, []))
                    except vprun.BuildError as e:
                        print('ERROR property=%s %s' % (pid, e))
                        return 2
        res = run_all(tasks, int(os.environ.get('VP_JOBS', '8')), budget, shared)
    finally:
        shutil.rmtree(shared, ignore_errors=True)
    rc = 0
    kf = known(pid)
    used = set()
    violations = []
    incon = []
    errors = []
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '_'):
            os.unlink(os.path.join(rdir, f))
    for t, r in zip(tasks, res):
        if verbose:
            print('%-34s %6.1fs q=%-6s paths=%-6s asserts=%-6s viol=%d unconf=%d inc=%s %s' % (
                r['name'], r.get('wall', 0), r.get('queries'), r.get('paths'), r.get('asserts'), len(r.get('violations', [])),
                len(r.get('unconfirmed', [])), r.get('inconclusive', [])[:3], r.get('error', '')))
            for u in r.get('unconfirmed', []):
                print('    unconfirmed:', u)
            if t.opts.get('profile'):
                for x in r.get('prof', [])[:25]:
                    print('    ', x)
        if r.get('error'):
            (incon if r.get('notstarted') or 'without a result' in r['error'] else errors).append('%s: %s' % (r['name'], r['error']))
        incon += ['%s: %s' % (r['name'], x) for x in r.get('inconclusive', [])]
        for v in r.get('violations', []):
            hit = [e for e in kf if matches(e, t.name, v)]
            if hit:
                if id(hit[0]) not in used:
                    used.add(id(hit[0]))
                    print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]['text']))
                continue
            f = os.path.join(rdir, '%s_%d.json' % (pid, len(violations)))
            rec = dict(property=pid, task=t.name, tier=tier, what=v['what'], inputs=v['inputs'], native=v['native'],
                       how='python3-vt %s/check.py --replay %s' % (VERIF, f))
            json.dump(rec, open(f, 'w'), indent=1)
            violations.append(rec)
            print('VIOLATION property=%s replay=%s' % (pid, f))
            print('  task %s: %s; inputs %s; native run: %s' % (t.name, v['what'], v['inputs'][:40], v['native']))
            rc = 1
    for x in incon:
        print('INCONCLUSIVE property=%s %s' % (pid, x))
    for x in errors:
        print('ERROR property=%s %s' % (pid, x))
    if errors and not rc:
        rc = 2
    fns = sorted({f for r in res for f in r.get('functions', [])})
    tt = []
    for t, r in zip(tasks, res):
        tt.append(dict(task=t.name, harness=t.harness, backend=t.backend, bounds=t.note, defs=list(t.defs), wall_s=round(r.get('wall', 0), 2),
                       solver_s=round(r.get('solver_s', 0), 2), queries=r.get('queries', 0), paths=r.get('paths', 0),
                       assertions_decided=r.get('asserts', 0), assertions_held=r.get('discharged', 0),
                       decided=not (r.get('error') or r.get('inconclusive')),
                       witnesses={k: (v[:24] if isinstance(v, list) else v) for k, v in r.get('reach', {}).items()},
                       unconfirmed=r.get('unconfirmed', [])[:3]))
    replayed = sum(r.get('witness_replays', 0) for r in res)
    nd = sum(1 for x in tt if x['decided'])
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(
                  states=sum(x['paths'] or 0 for x in tt), transitions=sum(x['queries'] or 0 for x in tt),
                  traces_validated_against_impl=replayed,
                  explanation='bounded symbolic execution of the LLVM IR compiled from /repo; "states" are symbolic paths '
                              '(each stands for every input satisfying its path condition), "transitions" are SMT queries, '
                              '"traces_validated_against_impl" are solver models (reachability witnesses and counterexamples) '
                              'executed natively against the same harness; %d of %d tasks fully decided' % (nd, len(tt)),
                  functions_encoded=fns, bounds=[t.note for t in tasks if t.note],
                  queries=sum(x['queries'] or 0 for x in tt), solver_s=round(sum(x['solver_s'] for x in tt), 2),
                  cross_checked_by_cvc5=sum(r.get('cross_checked', 0) for r in res),
                  tasks=tt, inconclusive=incon, errors=errors,
                  samples=[dict(task=t.name, inputs=v[:24] if isinstance(v, list) else v)
                           for t, r in list(zip(tasks, res))[:6] for k, v in list(r.get('reach', {}).items())[:1]]),
              wall_s=round(time.time() - t0, 2), assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
              violations=[dict(what=v['what'], replay=os.path.join('evidence/replays', '%s_%d.json' % (pid, k)), inputs=v['inputs'])
                          for k, v in enumerate(violations)])
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s property=%s tier=%s: %d/%d tasks decided, %d paths, %d queries, %.1f s solver, %.1f s wall' % (
        'FAIL' if rc == 1 else 'ERROR' if rc else 'OK', pid, tier, nd, len(tt), ev['coverage']['states'], ev['coverage']['queries'],
        ev['coverage']['solver_s'], ev['wall_s']))
    return rc


COMMON = [
    'the code is compiled for x86-64 by clang 18 at -O0 and simplified with sroa/instsimplify/simplifycfg before it is encoded',
    'machine integers are encoded as mathematical integers with wrap-around made explicit; signed overflow is reported as undefined',
    'double arithmetic is encoded over the exact reals: rounding error is outside the claim except where the values are small integers',
    'libc functions are replaced by the models in lib/vpsym.py (C locale)',
]


def replay_file(f):
    import vprun
    rec = json.load(open(f))
    mod = importlib.import_module(rec['property'])
    for tier in ('quick', 'thorough'):
        for t in mod.tasks(tier):
            if t.name == rec['task']:
                d = tempfile.mkdtemp(prefix='vp_')
                try:
                    ok, txt = vprun.replay(t, d, rec['inputs'])
                finally:
                    shutil.rmtree(d, ignore_errors=True)
                print(('REPRODUCED ' if ok else 'not reproduced ') + txt)
                return 1 if ok else 0
    print('no such task')
    return 2


if __name__ == '__main__':
    sys.exit(main())
