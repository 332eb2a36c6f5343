"""Driver shared by all checks: compile /repo + harness to LLVM bitcode, run the symbolic executor on each
job in parallel, replay a counterexample natively under AddressSanitizer, write the evidence file."""
import json, os, re, shutil, subprocess, sys, threading, time, hashlib, tempfile, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('XSE_REPO', '/repo')
XSE = os.path.join(VERIF, 'build', 'xse')
CORES = int(os.environ.get('XSE_CORES', '8'))
MEM_TOTAL = int(os.environ.get('XSE_MEM', '26000'))
PASSES = 'sroa,mem2reg,early-cse,simplifycfg,instsimplify'

class Job:
    def __init__(self, name, harness, srcs, defs=(), params=None, flags=(), time=600, mem=3000, reach=(), labels=(), cdefs=None, cost=1, models=False, expect='ok', note='', replay=True, entry='harness', optional=False):
        self.name, self.harness, self.srcs, self.defs = name, harness, list(srcs), list(defs)
        self.params, self.flags, self.time, self.mem = dict(params or {}), list(flags), time, mem
        self.reach, self.labels, self.cost, self.note = list(reach), list(labels), cost, note
        self.replay, self.entry, self.optional = replay, entry, optional # optional: looks inside; skipped when the internals it names are gone

class CheckError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0: raise CheckError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    return r.stdout

class Builder:
    def __init__(self, work):
        self.work, self.cache, self.lock, self.locks = work, {}, threading.Lock(), {}
    def once(self, key, fn):
        with self.lock: lk = self.locks.setdefault(key, threading.Lock())
        with lk:
            if key not in self.cache: self.cache[key] = fn()
            r = self.cache[key]
        return r
    def bc(self, src, defs):
        def mk():
            h = hashlib.sha1((src + '|' + ' '.join(defs)).encode()).hexdigest()[:16]
            out = os.path.join(self.work, os.path.basename(src).replace('.c', '') + '-' + h + '.bc')
            sh(['clang-18', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-builtin-printf', '-emit-llvm', '-w', '-I' + os.path.join(VERIF, 'harness'), '-I' + REPO] + list(defs) + ['-c', src, '-o', out])
            return out
        return self.once(('bc', src, tuple(defs)), mk)
    def link(self, job):
        # srcs entries: "file.c" (from /repo) or ("file.c", [extra defs]) ; harness files come from /verif/harness
        hs = job.harness if isinstance(job.harness, (list, tuple)) else [job.harness]
        key = ('link', tuple(hs), repr(job.srcs), tuple(job.defs))
        def mk():
            parts = [self.bc(os.path.join(VERIF, 'harness', h), tuple(job.defs)) for h in hs]
            for s in job.srcs:
                d = []
                if isinstance(s, tuple): s, d = s
                parts.append(self.bc(os.path.join(REPO, s), tuple(list(job.defs) + list(d))))
            h = hashlib.sha1(repr(key).encode()).hexdigest()[:16]
            l = os.path.join(self.work, 'l-' + h + '.bc'); m = os.path.join(self.work, 'm-' + h + '.bc')
            sh(['llvm-link-18'] + parts + ['-o', l + '0']); sh(['llvm-link-18', '--only-needed', l + '0', self.bc(os.path.join(VERIF, 'harness', 'models.c'), ()), '-o', l]); sh(['opt-18', '-passes=' + PASSES, l, '-o', m])
            return l, m
        return self.once(key, mk)

class Check:
    def __init__(self, prop, level='model_checking', bounds='', outside='', assumptions=(), cuts=()):
        self.prop, self.level, self.bounds, self.outside = prop, level, bounds, outside
        self.assumptions, self.cuts, self.jobs, self.known = list(assumptions), list(cuts), [], []
    def job(self, *a, **k):
        j = Job(*a, **k); self.jobs.append(j); return j

def run_native(builder, job, model, outdir):
    """Replay: same linked module as machine code + ASan; returns (reproduced, log)."""
    l, m = builder.link(job)
    nb = os.path.join(outdir, 'native.bc'); exes = []
    sh([XSE, l, '--emit-native', nb, '--repo', REPO])
    log = ''
    for pat in ('zero', 'pattern'):
        exe = os.path.join(outdir, 'replay-' + pat); base = ['clang-18', '-DENTRY=' + job.entry, '-O1', '-g', '-w', '-fsanitize=address', '-ftrivial-auto-var-init=' + pat, '-I' + os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'lib', 'replay_rt.c'), nb, '-o', exe, '-lcrypto']
        r = subprocess.run(base, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True); stubs = ['-Wl,--defsym=%s=abort' % u for u in sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stdout)))] # functions the job never calls
        if r.returncode == 0: exes.append(exe); continue
        # automatic variables that the source leaves uninitialised are filled by poisoning freed stack/heap with a run-time pattern
        sh(base + stubs)
        exes.append(exe)
    outs = []
    for exe, fill in zip(exes, ('0', '170')):
        env = dict(os.environ, XSE_MODEL=model, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:max_malloc_fill_size=100000000:malloc_fill_byte=' + fill + ':allocator_may_return_null=1')
        try:
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=120, cwd=outdir)
            o = r.stdout.decode('latin1'); rc = r.returncode
        except subprocess.TimeoutExpired: o, rc = 'REPLAY-TIMEOUT', 124
        outs.append(o); log += '--- %s rc=%d\n%s\n' % (os.path.basename(exe), rc, o[-6000:])
        if 'REPLAY-VIOLATION' in o or 'AddressSanitizer' in o or rc in (124, -11, -6, -8, 99): return True, log
    if [x for x in outs[0].splitlines() if x.startswith('INIT')] != [x for x in outs[1].splitlines() if x.startswith('INIT')]: return True, log + 'outputs depend on uninitialised memory (two fill patterns differ)\n'
    return False, log

def run_check(chk, tier, seed, verbose=False, only=None):
    t0 = time.time(); prop = chk.prop
    work = os.path.join(VERIF, 'build', 'work-%s-%d' % (prop, os.getpid())); os.makedirs(work, exist_ok=True)
    b = Builder(work); results = {}; errors = []; viol = []; lock = threading.Lock(); procs = {}; stop = threading.Event()
    jobs = [j for j in chk.jobs if not only or re.search(only, j.name)]
    names = [j.name for j in jobs]; assert len(set(names)) == len(names), 'duplicate job names'
    # the term rewriting itself is checked by the solver on some jobs of every check (more of them on thorough)
    own = [j for j in jobs if not j.name.startswith('low-')]; k = 24 if tier == 'thorough' else 3
    for j in own[::max(1, len(own) // k)]:
        if '--audit' not in j.flags: j.flags += ['--audit', '97', '--audit-max', '100' if tier == 'thorough' else '20']
    pend = sorted(jobs, key=lambda j: -j.cost); state = {'mem': 0, 'run': 0}; cond = threading.Condition()
    def confirm(j, r): # replay the counterexample against the real code
        rd = os.path.join(VERIF, 'replays', '%s-%s' % (prop, j.name)); shutil.rmtree(rd, ignore_errors=True); os.makedirs(rd)
        mod = os.path.join(rd, 'model.txt')
        try:
            if os.path.exists(r['model']): shutil.copy(r['model'], mod)
            json.dump({k2: v for k2, v in r.items() if k2 not in ('output',)}, open(os.path.join(rd, 'result.json'), 'w'), indent=1)
            ok, log = run_native(b, j, mod, rd)
        except Exception as e: ok, log = False, 'replay failed: %s' % e
        open(os.path.join(rd, 'replay.log'), 'w').write('job %s\nlabel %s\n%s\n\n%s' % (j.name, r.get('label'), r.get('detail'), log))
        for x in ('native.bc', 'replay-zero', 'replay-pattern'):
            try: os.unlink(os.path.join(rd, x))
            except OSError: pass
        open(os.path.join(rd, 'replay.sh'), 'w').write('#!/bin/sh\n# rebuilds job %s from the current tree and replays the counterexample in model.txt\nexec python3 %s/run.py %s --replay %s %s\n' % (j.name, VERIF, prop, j.name, mod))
        return ok, rd, log
    def run_job(j):
        try:
            try: l, m = b.link(j)
            except CheckError as e:
                if not j.optional: raise
                with lock: results[j.name] = {'status': 'skipped', 'detail': str(e)[-600:]}
                if verbose: print('%-44s skipped   %s' % (j.name, str(e)[-300:]))
                return
            res = os.path.join(work, j.name + '.json'); mod = os.path.join(work, j.name + '.model')
            cmd = [XSE, m, '-e', j.entry, '-o', res, '-m', mod, '--repo', REPO, '--time', str(j.time), '--mem', str(j.mem)] + list(j.flags)
            for k, v in j.params.items(): cmd += ['-p', '%s=%d' % (k, v)]
            if stop.is_set(): return
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            with lock: procs[j.name] = p
            try: out, _ = p.communicate(timeout=j.time + 120)
            except subprocess.TimeoutExpired: p.kill(); out, _ = p.communicate(); out += '\nXSE-ERROR killed after time limit'
            with lock: procs.pop(j.name, None)
            if stop.is_set(): return
            r = json.load(open(res)) if os.path.exists(res) else {'status': 'error', 'detail': 'no result (exit %s)' % p.returncode}
            r['output'] = out[-2500:]; r['model'] = mod; r['rc'] = p.returncode
            if r['status'] == 'ok' and p.returncode != 0: r['status'] = 'error'; r['detail'] = 'exit %d' % p.returncode
            if r['status'] == 'ok':
                for lb in j.reach:
                    if lb not in r['reached']: r['status'] = 'error'; r['detail'] = 'vacuous: "%s" not reached' % lb
                for lb in j.labels:
                    if lb not in r['checks']: r['status'] = 'error'; r['detail'] = 'vacuous: check "%s" never evaluated' % lb
            with lock: results[j.name] = r
            if verbose: print('%-44s %-9s %6.1fs %s' % (j.name, r['status'], r.get('wall', 0), '' if r['status'] == 'ok' else (r.get('label', '') + ' ' + r.get('detail', ''))[:1500]), flush=True)
            if r['status'] == 'violation':
                k = [kf for kf in chk.known if kf.get('job') == j.name and kf.get('label') == r['label']]
                c = None if k else confirm(j, r)
                with lock: viol.append((j, r, k, c))
                if c and c[0]: stop.set()
            elif r['status'] != 'ok':
                with lock: errors.append((j.name, r.get('detail', ''), r['output']))
        except Exception as e:
            with lock: errors.append((j.name, str(e), ''))
    def worker():
        while True:
            with cond:
                while True:
                    if stop.is_set() or not pend: cond.notify_all(); return
                    cand = next((j for j in pend if state['run'] == 0 or state['mem'] + j.mem <= MEM_TOTAL), None)
                    if cand is None: cond.wait(1); continue
                    pend.remove(cand); state['mem'] += cand.mem; state['run'] += 1; break
            run_job(cand)
            with cond: state['mem'] -= cand.mem; state['run'] -= 1; cond.notify_all()
    ths = [threading.Thread(target=worker) for _ in range(min(CORES, max(1, len(jobs))))]
    for t in ths: t.start()
    while any(t.is_alive() for t in ths):
        time.sleep(0.02)
        if stop.is_set():
            with lock: ps = list(procs.values())
            for p in ps:
                try: p.kill()
                except Exception: pass
    for t in ths: t.join()
    rc = 0; confirmed = []; unconfirmed = []
    for j, r, k, c in viol:
        if k: print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what'])); continue
        (confirmed if c[0] else unconfirmed).append((j, r, c[1], c[2]))
    for j, r, rd, log in confirmed:
        print('job %s: %s: %s' % (j.name, r.get('label'), r.get('detail', '')[:1200])); print('VIOLATION property=%s replay=%s' % (prop, rd)); rc = 1
    if not confirmed:
        for j, r, rd, log in unconfirmed:
            print('ERROR job %s: counterexample for %s did not reproduce natively (%s): %s\n%s' % (j.name, r.get('label'), rd, r.get('detail', '')[:1500], log[-1500:])); rc = 2
        for n, d, o in errors: print('ERROR job %s: %s\n%s' % (n, d[:3000], o[-800:])); rc = 2
    write_evidence(chk, tier, seed, jobs, results, time.time() - t0, len(confirmed))
    shutil.rmtree(work, ignore_errors=True)
    return rc

def write_evidence(chk, tier, seed, jobs, results, wall, nviol):
    S = lambda f: sum(f(r) for r in results.values() if 'solver' in r)
    checks, funcs = {}, {}
    for r in results.values():
        for k, v in r.get('checks', {}).items():
            c = checks.setdefault(k, {'evaluated': 0, 'by_rewriting': 0, 'by_solver': 0, 'bytes': 0}); c['evaluated'] += v['n']; c['by_rewriting'] += v['rewriting']; c['by_solver'] += v['solver']; c['bytes'] += v['bytes']
        for k, v in r.get('functions', {}).items():
            c = funcs.setdefault(k, {'calls': 0, 'instructions': 0}); c['calls'] += v['calls']; c['instructions'] += v['instructions']
    samples = [{'job': j.name, 'params': j.params, 'status': results.get(j.name, {}).get('status', 'not run'), 'checks': results.get(j.name, {}).get('checks', {}), 'reached': results.get(j.name, {}).get('reached', {}), 'solver': results.get(j.name, {}).get('solver', {}), 'wall_s': results.get(j.name, {}).get('wall', 0)} for j in jobs]
    obl = sum(c['evaluated'] for c in checks.values()); okjobs = [r for r in results.values() if r.get('status') == 'ok']
    cov = {'functions_encoded': funcs, 'bounds': chk.bounds, 'outside_the_claim': chk.outside, 'cuts': chk.cuts,
           'jobs': len(jobs), 'jobs_completed': len(okjobs), 'symbolic_runs': S(lambda r: r['runs']),
           'states': S(lambda r: r['terms']), 'transitions': S(lambda r: r['instructions']),
           'states_meaning': 'distinct symbolic terms built; transitions: LLVM instructions executed symbolically',
           'traces_validated_against_impl': nviol,
           'obligations': obl, 'discharged': sum(sum(v['n'] for v in r['checks'].values()) for r in okjobs),
           'obligations_by_label': checks, 'queries': S(lambda r: r['solver']['queries']), 'queries_unsat': S(lambda r: r['solver']['unsat']), 'queries_sat': S(lambda r: r['solver']['sat']), 'queries_unknown': S(lambda r: r['solver']['unknown']),
           'rewriting': {k: S(lambda r: r.get('rewriting', {}).get(k, 0)) for k in ('steps_validated_on_fixed_assignments', 'steps_proved_by_solver', 'steps_no_answer', 'audit_time')},
           'solver_time_s': round(S(lambda r: r['solver']['time']), 3), 'memory_accesses_checked': S(lambda r: r['memory_accesses_checked']), 'forks': S(lambda r: r['forks']),
           'samples': samples[:400]}
    ev = {'property': chk.prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': chk.level, 'coverage': cov, 'assumptions': chk.assumptions, 'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', chk.prop + '.json'), 'w'), indent=1)

def exported(src):
    """names of functions with external linkage defined in a /repo source file"""
    with tempfile.TemporaryDirectory() as d:
        o = os.path.join(d, 'x.o'); sh(['clang-18', '-O0', '-w', '-I' + REPO, '-c', os.path.join(REPO, src), '-o', o])
        return set(l.split()[-1] for l in sh(['nm', '-g', '--defined-only', o]).splitlines() if l.strip())
