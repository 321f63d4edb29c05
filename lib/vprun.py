"""Check runner: builds IR from /repo's current tree, discharges tasks with
CBMC or the SMT executor, replays counterexamples natively, writes evidence."""
import os, sys, json, subprocess, time, shutil, tempfile, re, traceback, struct, hashlib
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CLANGXX, CLANG = '/usr/bin/clang++-18', '/usr/bin/clang-18'
LINK, OPT = '/usr/bin/llvm-link-18', '/usr/bin/opt-18'
CBMC = '/usr/local/bin/cbmc'
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import vpir, vpc

IRFLAGS = ['-include', VERIF + '/models/pre.h', '-w', '-O0', '-ffp-contract=off', '-Xclang', '-disable-O0-optnone',
           '-fno-exceptions', '-S', '-emit-llvm', '-I' + REPO, '-I' + VERIF + '/models']
PASSES = 'sroa,instsimplify,simplifycfg'


class Task:
    def __init__(self, name, harness, sources, backend, defs=(), unwind=20, unwindset=(), timeout=600, tier='quick',
                 opts=None, note='', max_unwind=None, override=(), cbmc_args=(), src_defs=None, rename=None, reach=None, weight=1, weak=()):
        self.weak = tuple(weak)     # functions of the sources that the harness replaces with a model of its own
        self.weight, self.witness = weight, True
        self.name, self.harness, self.sources, self.backend = name, harness, list(sources), backend
        self.defs, self.unwind, self.unwindset, self.timeout, self.tier = list(defs), unwind, list(unwindset), timeout, tier
        self.opts, self.note = opts or {}, note
        self.max_unwind = max_unwind or unwind * 3
        self.override = override
        self.cbmc_args = list(cbmc_args)
        self.src_defs = src_defs or {}
        self.rename = rename or {}


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


class BuildError(Exception):
    pass


def src_path(s):
    return s if s.startswith('/') else os.path.join(REPO, s)


_shared = os.environ.get('VP_SHARED')


def compile_ir(src, out, defs):
    """compile one source to IR; sources of /repo are compiled once per run into the run's shared directory"""
    if _shared and not src.startswith(VERIF):
        key = hashlib.sha1((src + '|' + ' '.join(defs)).encode()).hexdigest()[:16]
        c = os.path.join(_shared, key + '.ll')
        if not os.path.exists(c):
            tmp = c + '.%d' % os.getpid()
            _compile_ir(src, tmp, defs)
            os.rename(tmp, c)
        shutil.copy(c, out)
        return
    _compile_ir(src, out, defs)


def _compile_ir(src, out, defs):
    cc = CLANG if src.endswith('.c') else CLANGXX
    r = run([cc] + IRFLAGS + list(defs) + [src, '-o', out])
    if r.returncode:
        raise BuildError('clang failed on %s:\n%s' % (src, r.stderr.decode()[:2000]))


def build_ir(task, d):
    lls = []
    h = os.path.join(VERIF, 'harness', task.harness)
    out = os.path.join(d, 'h.ll')
    compile_ir(h, out, task.defs)
    lls.append(out)
    for k, s in enumerate(task.sources):
        out = os.path.join(d, 's%d.ll' % k)
        compile_ir(src_path(s), out, task.src_defs.get(s, []))
        if task.weak:
            t = open(out).read()
            for w in task.weak:
                t = re.sub(r'(?m)^define (?:dso_local )?(?=[^@\n]*@%s\()' % re.escape(w), 'define weak ', t)
            open(out, 'w').write(t)
        lls.append(out)
    r = run([LINK, '-S'] + lls + ['-o', d + '/all.ll'])
    if r.returncode:
        raise BuildError('llvm-link: ' + r.stderr.decode()[:2000])
    r = run([OPT, '-S', '-passes=' + task.opts.get('passes', PASSES), d + '/all.ll', '-o', d + '/opt.ll'])
    if r.returncode:
        raise BuildError('opt: ' + r.stderr.decode()[:2000])
    return vpir.parse_module(open(d + '/opt.ll').read())


def build_native(task, d):
    objs = []
    common = ['-g', '-O1', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-builtin', '-I' + REPO, '-I' + VERIF + '/models']
    variants = []
    for vi, extra in enumerate((['-ftrivial-auto-var-init=pattern'], ['-ftrivial-auto-var-init=zero'])):
        objs = []
        for k, s in enumerate([os.path.join(VERIF, 'harness', task.harness), VERIF + '/models/replay.cpp'] +
                              [src_path(x) for x in task.sources]):
            o = '%s/n%d_%d.o' % (d, vi, k)
            cc = 'gcc' if s.endswith('.c') else 'g++'
            df = task.defs if k == 0 else (task.src_defs.get(task.sources[k - 2], []) if k >= 2 else [])
            if task.weak:
                df = list(df) + ['-fno-inline', '-fno-ipa-pure-const', '-fno-ipa-ra', '-fno-ipa-cp', '-fno-ipa-sra', '-fno-ipa-icf']
            r = run([cc] + common + extra + list(df) + ['-DVP_NATIVE', '-c', s, '-o', o])
            if r.returncode:
                raise BuildError('native %s: %s' % (s, r.stderr.decode()[:1500]))
            if task.weak and k >= 2:
                run(['objcopy'] + ['--weaken-symbol=' + w for w in task.weak] + [o])
            objs.append(o)
        exe = '%s/replay%d' % (d, vi)
        r = run(['g++', '-fsanitize=address', '-Wl,--unresolved-symbols=ignore-all'] + objs + ['-o', exe, '-lm'])
        if r.returncode:
            raise BuildError('native link: ' + r.stderr.decode()[:1500])
        variants.append(exe)
    return variants


def replay(task, d, inputs, timeout=20):
    """returns (reproduced, text)"""
    if not hasattr(task, '_exe') or not os.path.exists(task._exe[0]):
        nd = os.path.join(d, 'native')
        os.makedirs(nd, exist_ok=True)
        task._exe = build_native(task, nd)
    f = os.path.join(d, 'inputs.txt')
    with open(f, 'w') as fh:
        for x in inputs:
            v = x[-1] if isinstance(x, (tuple, list)) else x
            fh.write((repr(v) if isinstance(v, float) else str(v)) + '\n')
    txt = ''
    for exe in task._exe:
        env = dict(os.environ, VP_INPUTS=f, ASAN_OPTIONS='detect_leaks=0:exitcode=99')
        try:
            r = run(['prlimit', '--as=unlimited:unlimited', exe], timeout=timeout, env=env, cwd=d)
            o = r.stdout.decode('latin1') + r.stderr.decode('latin1')
            rc = r.returncode
        except subprocess.TimeoutExpired:
            return True, 'does not terminate (native run exceeded %d s)' % timeout
        if rc != 0:
            m = re.search(r'REPLAY-VIOLATION [^\n]*|ERROR: AddressSanitizer[^\n]*|Assertion[^\n]*', o)
            return True, (m.group(0) if m else 'native run exit status %d' % rc)
        txt = o[-300:]
    return False, txt


def cbmc_value(v):
    n, w = v.get('name'), v.get('width')
    b = v.get('binary')
    if n == 'float' or (v.get('type', '') in ('double',)):
        if b and len(b) == 64:
            return struct.unpack('>d', int(b, 2).to_bytes(8, 'big'))[0]
    if b:
        x = int(b, 2)
        if b[0] == '1' and len(b) in (8, 16, 32, 64):
            x -= 1 << len(b)
        return x
    return int(re.match(r'-?\d+', v['data']).group())


def trace_inputs(trace):
    out = []
    for st in trace:
        if st.get('stepType') == 'assignment' and st.get('lhs') in ('vp_last', 'vp_last_d') and \
                not st.get('hidden') and st.get('sourceLocation', {}).get('function', '').startswith('vpl_vp_'):
            v = cbmc_value(st['value'])
            out.append(v)
    return out


def run_cbmc(task, d, res):
    mod = build_ir(task, d)
    models = open(VERIF + '/models/libc_model.c').read()
    for x in task.opts.get('models', ()):
        models += open(VERIF + '/models/' + x).read()
    g = vpc.CGen(mod, models, 'harness', dict(override=task.override, check_nsw=task.opts.get('check_nsw', False)))
    src = g.generate()
    if g.unmodelled:
        res['inconclusive'].append('no model for external function(s): ' + ', '.join(sorted(g.unmodelled)))
        return
    cf = d + '/enc.c'
    open(cf, 'w').write(src)
    res['functions'] = sorted(n for n in g.needed_f if n != 'harness')
    res['stubs'] = sorted(n for n in g.externs if not n.startswith('vp_') and not n.startswith('llvm'))
    unwind = task.unwind
    t0 = time.time()
    while True:
        cmd = [CBMC, cf, '--function', 'main', '--no-standard-checks', '--bounds-check', '--pointer-check',
               '--unwind', str(unwind), '--unwinding-assertions', '--json-ui', '--trace',
               '--object-bits', '11', '--drop-unused-functions'] + task.cbmc_args
        for a in task.defs:
            if a.startswith('-DVP_FMT'):
                cmd.append(a)
        if task.unwindset:
            cmd += ['--unwindset', ','.join(task.unwindset)]
        left = task.timeout - (time.time() - t0)
        if left < 5:
            res['inconclusive'].append('time budget used up at unwind %d' % unwind)
            return
        try:
            r = run(['prlimit', '--as=%d' % (12 << 30)] + cmd, timeout=left)
        except subprocess.TimeoutExpired:
            res['inconclusive'].append('cbmc exceeded %d s at unwind %d' % (task.timeout, unwind))
            return
        res['queries'] += 1
        try:
            js = json.loads(r.stdout.decode('latin1'))
        except ValueError:
            res['inconclusive'].append('cbmc output unreadable (rc %d): %s' % (r.returncode, r.stdout.decode('latin1')[-300:]))
            return
        props = None
        msgs = []
        for e in js:
            if 'result' in e:
                props = e['result']
            if 'messageText' in e:
                msgs.append(e['messageText'])
                m = re.match(r'Runtime Solver: ([0-9.e+-]+)s', e['messageText'])
                m2 = re.match(r'Runtime decision procedure: ([0-9.e+-]+)s', e['messageText'])
                if m2:
                    res['solver_s'] += float(m2.group(1))
                m3 = re.match(r'(\d+) variables, (\d+) clauses', e['messageText'])
                if m3:
                    res['sat_vars'] = max(res.get('sat_vars', 0), int(m3.group(1)))
                    res['sat_clauses'] = max(res.get('sat_clauses', 0), int(m3.group(2)))
        if props is None:
            res['inconclusive'].append('cbmc gave no result (rc %d): %s' % (r.returncode, ' | '.join(msgs[-4:])[:600]))
            return
        unwfail = [p for p in props if p['status'] == 'FAILURE' and '.unwind.' in p['property']]
        cands = []
        model = []
        reach = {}
        nok = 0
        for p in props:
            desc = p.get('description', '')
            if desc.startswith('REACH:'):
                if p['status'] == 'FAILURE':
                    reach[desc[6:]] = trace_inputs(p.get('trace', []))
                else:
                    reach.setdefault(desc[6:], None)
                continue
            if '.unwind.' in p['property'] or 'recursion' in p['property']:
                continue
            if p['status'] == 'SUCCESS':
                nok += 1
            elif p['status'] == 'FAILURE':
                if desc.startswith('MODEL:'):
                    model.append(desc)
                else:
                    cands.append((desc, trace_inputs(p.get('trace', []))))
        res['asserts'] = len(props)
        res['discharged'] = nok
        res['reach'] = {k: v for k, v in reach.items()}
        res['unwind'] = unwind
        for desc, inp in cands:
            res['candidates'].append((desc.replace('VP:', '', 1), inp))
        if model:
            res['inconclusive'] += model
        if cands:
            return
        if unwfail:
            # the loop bound may simply be too small: look natively first
            res['unwind_inputs'] = [trace_inputs(p.get('trace', [])) for p in unwfail[:3]]
            nu = min(unwind * 2, task.max_unwind)
            if nu > unwind:
                unwind = nu
                continue
            for p in unwfail[:3]:
                res['candidates'].append(('loop bound %d exceeded (%s)' % (unwind, p['property']), trace_inputs(p.get('trace', []))))
            res['inconclusive'].append('unwinding assertion at bound %d: %s' % (unwind, unwfail[0]['property']))
        for k, v in reach.items():
            if v is None:
                res['inconclusive'].append('vacuity: witness %s not reachable' % k)
        return


def run_sym(task, d, res):
    import vpsym
    mod = build_ir(task, d)
    o = dict(task.opts)
    o.setdefault('wall', task.timeout - 20)
    e = vpsym.Exec(mod, o)
    e.run('harness')
    if o.get('profile'):
        res['prof'] = sorted(((v, str(k)) for k, v in e.prof.items()), reverse=True)[:25]
    res['functions'] = sorted(n for n in e.funcs_run)
    res['queries'] = e.stats['queries']
    res['solver_s'] = e.stats['solver_s']
    res['paths'] = e.stats['paths']
    res['asserts'] = e.stats['asserts']
    res['discharged'] = e.stats['asserts'] - len(e.violations)
    res['assert_kinds'] = e.assert_msgs
    res['reach'] = {k: [x[2] for x in v] for k, v in e.reached.items()}
    for v in e.violations:
        res['candidates'].append((v.msg, [x[2] for x in v.inputs]))
    res['inconclusive'] += sorted(set(e.inconclusive))[:10]
    want = o.get('reach', ['end'])
    for w in want:
        if w not in e.reached and not e.violations:
            res['inconclusive'].append('vacuity: witness %s not reachable' % w)
    if o.get('cross') and e.dumped:
        ok = 0
        for q in e.dumped:
            import z3
            s = z3.Solver()
            s.add(*q)
            f = d + '/q.smt2'
            open(f, 'w').write('(set-logic ALL)\n' + s.to_smt2())
            try:
                r = run(['/usr/bin/cvc5', '--tlimit=20000', f], timeout=40)
            except subprocess.TimeoutExpired:
                continue
            a = r.stdout.decode().strip().split('\n')[-1]
            if a == 'unsat':
                ok += 1
            elif a == 'sat' and not e.violations:
                res['inconclusive'].append('cvc5 disagrees with z3')
        res['cross_checked'] = ok


def run_task(args):
    task, keep = args
    t0 = time.time()
    res = dict(name=task.name, backend=task.backend, queries=0, solver_s=0.0, candidates=[], inconclusive=[], functions=[],
               violations=[], note=task.note, asserts=0, discharged=0, reach={}, unconfirmed=[])
    d = tempfile.mkdtemp(prefix='vp_')
    try:
        if task.backend == 'cbmc':
            run_cbmc(task, d, res)
        else:
            run_sym(task, d, res)
        # replay
        for desc, inp in res['candidates']:
            try:
                ok, txt = replay(task, d, inp)
            except BuildError as e:
                ok, txt = False, 'replay build failed: %s' % e
            if ok:
                res['violations'].append(dict(what=desc, inputs=inp, native=txt))
            else:
                res['unconfirmed'].append(dict(what=desc, inputs=inp, native=txt))
        if not res['candidates'] and task.witness:
            # push the solver's own witness through the native build: encoding and code must agree that it is fine
            for k, w in list(res['reach'].items())[:1]:
                if w:
                    ok, txt = replay(task, d, w)
                    if ok:
                        res['inconclusive'].append('encoding disagrees with the native run on witness %s: %s' % (w[:24], txt))
                    else:
                        res['witness_replays'] = 1
    except BuildError as e:
        res['error'] = str(e)
    except Exception as e:
        res['error'] = traceback.format_exc()[-1500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res['wall'] = time.time() - t0
    res.pop('unwind_inputs', None)
    return res
