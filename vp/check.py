#!/usr/bin/env python3
"""check.py <property> quick|thorough  -- exit 0 held, exit 1 + VIOLATION line otherwise."""
import os, sys, json, time, subprocess, tempfile, hashlib, traceback, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import VERIF
from concurrent.futures import ThreadPoolExecutor
from jobs import CHECKS
T0 = time.time()

def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def run_engine(eng, bc, job, extra, out, tlimit):
    cmd = [eng, bc, '--params', ','.join(map(str, job['params'])), '--out', out, '--time', str(tlimit)] + list(job.get('opts', [])) + extra
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=tlimit + 60, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return {'fatal': 'engine timeout'}
    try:
        return json.load(open(out))
    except Exception:
        return {'fatal': 'engine ended with status %d: %s' % (p.returncode, (p.stderr or p.stdout)[-300:])}

def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

def replay(binary, inputs, params, tmp, timeout=60, valgrind=False, sched=None):
    f = os.path.join(tmp, 'in_' + hashlib.sha1(repr((inputs, params, sched)).encode()).hexdigest()[:16])
    open(f, 'w').write('\n'.join(str(x) for x in inputs) + '\n')
    cmd = [binary, f, ','.join(map(str, params))]
    if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=9', '--track-origins=no'] + cmd
    env = dict(os.environ, TSAN_OPTIONS='exitcode=66 halt_on_error=0', ASAN_OPTIONS='detect_leaks=0:exitcode=98:abort_on_error=0:allocator_may_return_null=0')
    if sched is not None:
        sf = f + '.sched'; open(sf, 'w').write(' '.join(map(str, sched)) + '\n'); env['VP_SCHED'] = sf
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        out = p.stdout.decode('latin1'); err = p.stderr.decode('latin1')
        return p.returncode, out, err
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('latin1'), ''

def verdict(rc, out, err):
    """None when the native run shows nothing wrong"""
    for l in out.splitlines():
        if l.startswith('VP-FAIL'): return l[8:]
    if 'ThreadSanitizer: data race' in err: return 'ThreadSanitizer: data race'
    if rc == 0 or rc == 77: return None
    if rc == 'timeout': return 'does not terminate within the replay limit'
    if 'AddressSanitizer' in err:
        for l in err.splitlines():
            if 'ERROR: AddressSanitizer' in l: return l.split('ERROR: ')[1][:160]
    if rc == 9 and '==' in err:
        return 'valgrind: ' + (err.splitlines()[0].split('== ')[-1])[:120]
    if 'VP-EXCEPTION' in out: return 'uncaught exception'
    if rc == 42: return 'schedule replay: ' + (err.strip().splitlines() or ['?'])[-1]
    return 'exit status %s' % rc

def main(pid, tier):
    ck = CHECKS[pid]; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = ck.get('budget', {}).get(tier, 240 if tier == 'quick' else 3000)
    eng = build.engine()
    jobs = [j for j in ck['jobs'] if tier == 'thorough' or j.get('tier', 'q') == 'q']
    harnesses = sorted({j.get('harness', ck['harness']) for j in jobs})
    bcs = {h: build.harness_bc(h, ck.get('defs', ())) for h in harnesses}
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    known = [k for k in known_findings() if k['property'] == pid and k.get('status') == 'known']
    res = {}
    def one(k):
        j = jobs[k]; left = budget - (time.time() - T0)
        t = min(j.get('time', 150 if tier == 'quick' else 1200), max(left, 5))
        r = run_engine(eng, bcs[j.get('harness', ck['harness'])], j, ['--seed', str(seed)], os.path.join(tmp, 'o%d.json' % k), t)
        return k, r
    order = sorted(range(len(jobs)), key=lambda k: -jobs[k].get('weight', 1))
    with ThreadPoolExecutor(build.NPROC) as ex:
        for k, r in ex.map(one, order): res[k] = r
    # native build for replay and trace validation
    bins = {}
    def binary(h, kind='asan'):
        if (h, kind) not in bins: bins[(h, kind)] = build.native(h, kind, ck.get('defs', ()))
        return bins[(h, kind)]
    violations, knownhits, unconfirmed, incomplete, samples, mismatches = [], [], [], [], [], []
    tot = dict(paths=0, states=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, cached=0, solver_time=0.0)
    labels = {}; reach = {}; funcs = set(); validated = 0
    tasks = []
    for k, j in enumerate(jobs):
        r = res[k]; h = j.get('harness', ck['harness']); nm = j.get('name', str(j['params']))
        if 'fatal' in r: incomplete.append('%s: %s' % (nm, r['fatal'])); continue
        for x in ('instructions', 'queries', 'sat', 'unsat', 'unknown', 'cached', 'solver_time'): tot[x] += r[x]
        tot['paths'] += r['paths']; tot['states'] += r['paths'] + r['paths_assume'] + r['paths_error'] + r['forks']
        for l, v in r['labels'].items():
            d = labels.setdefault(l, dict(checked=0, discharged=0, structural=0, violated=0, unknown=0))
            for x in d: d[x] += v[x]
        for l, v in r['reach'].items(): reach[l] = reach.get(l, 0) + v
        funcs.update(r['functions'])
        for e, n in r['errors'].items(): incomplete.append('%s: %s (x%d)' % (nm, e, n))
        if r['unknown']: incomplete.append('%s: %d queries undecided within the solver limit' % (nm, r['unknown']))
        for want in j.get('reach', ck.get('reach', ['end'])):
            if not r['reach'].get(want): incomplete.append('%s: reachability witness %r not hit' % (nm, want))
        for rep in r['reports']: tasks.append((k, rep))
    def confirm(t):
        k, rep = t; j = jobs[k]; h = j.get('harness', ck['harness'])
        vs = []
        if not rep['inputs']: return t, None, None, 'no concrete inputs from the solver'
        why = ''
        for inp in rep['inputs'][:8]:
            if rep['kind'] == 'race':
                rc, out, err = 0, '', ''
                for _ in range(25):
                    r2, o2, e2 = replay(binary(h, 'tsan'), inp, j['params'], tmp, timeout=20)
                    if 'ThreadSanitizer: data race' in e2: rc, out, err = r2, o2, e2; break
            elif rep['kind'] == 'uninit':
                rc, out, err = replay(binary(h, 'plain'), inp, j['params'], tmp, valgrind=True, sched=rep['sched'] or None)
            else:
                rc, out, err = replay(binary(h), inp, j['params'], tmp, timeout=25 if rep['kind'] == 'nontermination' else 60, sched=rep['sched'] or None)
            v = verdict(rc, out, err)
            if v: return t, inp, v, (out + err)[-3000:]
            why = 'native run passes (rc=%s)' % rc
        return t, None, None, why
    # several reports for the same label: stop at the first confirmed; bounded number of replays
    if tasks:
        for h in {jobs[k].get('harness', ck['harness']) for k, _ in tasks}:
            binary(h)
            if any(r['kind'] == 'uninit' for _, r in tasks): binary(h, 'plain')
            if any(r['kind'] == 'race' for _, r in tasks): binary(h, 'tsan')
        with ThreadPoolExecutor(build.NPROC) as ex: conf = list(ex.map(confirm, tasks[:60]))
    else: conf = []
    for (k, rep), inp, v, log in conf:
        j = jobs[k]; nm = j.get('name', str(j['params']))
        if not v: unconfirmed.append(dict(job=nm, kind=rep['kind'], label=rep['label'], where=rep['where'][:200], reason=log)); continue
        kf = next((x for x in known if x.get('job', nm) == nm and x['match'] in (rep['kind'] + ' ' + rep['label'] + ' ' + v)), None)
        item = dict(property=pid, job=nm, params=j['params'], harness=j.get('harness', ck['harness']), kind=rep['kind'], label=rep['label'], where=rep['where'], names=rep['names'], inputs=inp, sched=rep['sched'], native=v, log=log)
        if kf: knownhits.append((kf, item))
        else: violations.append(item)
    # trace validation: concrete run of the encoding against the real build
    vt = []
    nval = ck.get('validate', 2)
    for k, j in enumerate(jobs):
        r = res[k]
        for s in r.get('samples', [])[:nval]: vt.append((k, s))
    vt = vt[:ck.get('maxvalidate', 40)]
    def validate(it):
        i, t = it; k, s = t; j = jobs[k]; h = j.get('harness', ck['harness'])
        f = os.path.join(tmp, 'v%d_%d' % (k, i)); open(f, 'w').write('\n'.join(str(x) for x in s['in']) + '\n')
        extra = ['--inputs', f, '--samples', '0']
        if s['sched']:
            open(f + '.s', 'w').write(' '.join(map(str, s['sched'])) + '\n'); extra += ['--sched', f + '.s']
        r = run_engine(eng, bcs[h], j, extra, f + '.json', 120)
        rc, out, err = replay(binary(h), s['in'], j['params'], tmp, timeout=120, sched=s['sched'] or None)
        return t, r, rc, out, err
    if vt:
        for h in {jobs[k].get('harness', ck['harness']) for k, _ in vt}: binary(h)
        with ThreadPoolExecutor(build.NPROC) as ex: vres = list(ex.map(validate, enumerate(vt)))
        for (k, s), r, rc, out, err in vres:
            j = jobs[k]; nm = j.get('name', str(j['params'])); v = verdict(rc, out, err)
            if v:
                kf = next((x for x in known if x.get('job', nm) == nm and x['match'] in v), None)
                item = dict(property=pid, job=nm, params=j['params'], harness=j.get('harness', ck['harness']), kind='path replay', label='native run of a solver-chosen path', where='', names=[], inputs=s['in'], sched=s['sched'], native=v, log=(out + err)[-3000:])
                if kf: knownhits.append((kf, item))
                elif rc == 'timeout': mismatches.append('%s: native replay slow' % nm)
                else: violations.append(item)
                continue
            if rc == 77: continue
            if 'fatal' in r: mismatches.append('%s: %s' % (nm, r['fatal'])); continue
            nat = [(l.split()[1], float.fromhex(l.split()[2])) for l in out.splitlines() if l.startswith('VP-OBS')]
            def fh(x):
                try: return float.fromhex(x)
                except ValueError: return float('nan')
            mod = [(a, fh(b)) for a, b in r['obs']]
            same = len(nat) == len(mod) and all(a == c and (b == d or (b != b and d != d)) for (a, b), (c, d) in zip(nat, mod))
            if same:
                validated += 1
                if len(samples) < 4: samples.append(dict(job=nm, inputs=s['in'][:24], outcome=r['outcome'], observed=len(nat), first_observations=r['obs'][:3]))
            else: mismatches.append('%s: encoding and native run disagree on observed values' % nm)
    seen = set(); lines = []
    rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    for kf, item in knownhits:
        if kf['id'] in seen: continue
        seen.add(kf['id']); lines.append('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
    uniq = {}
    for v in violations: uniq.setdefault((v['kind'], v['label']), v)
    for i, v in enumerate(list(uniq.values())[:10]):
        p = os.path.join(rdir, '%s-%d.json' % (pid, i)); json.dump(v, open(p, 'w'), indent=1)
        lines.append('  %s [%s] %s: %s' % (v['job'], v['kind'], v['label'], v['native']))
        lines.append('VIOLATION property=%s replay=%s' % (pid, p))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', violations=len(uniq), wall_s=round(time.time() - T0, 2),
        assumptions=ck.get('assumptions', []) + COMMON,
        coverage=dict(states=tot['states'], transitions=tot['instructions'], traces_validated_against_impl=validated, samples=samples or [dict(job=jobs[0].get('name', ''), note='no sample recorded')],
            paths=tot['paths'], jobs=len(jobs), queries=dict(total=tot['queries'], sat=tot['sat'], unsat=tot['unsat'], unknown=tot['unknown'], cache_hits=tot['cached']), solver_time_s=round(tot['solver_time'], 2),
            assertions=labels, reachability=reach, functions_encoded=sorted(f for f in funcs if not f.startswith('std::') and '__gnu' not in f), bounds=ck.get('bounds', ''), outside=ck.get('outside', ''),
            job_list=[dict(name=j.get('name', ''), params=j['params'], opts=j.get('opts', []), time=res[k].get('time'), paths=res[k].get('paths'), complete=not res[k].get('errors') and 'fatal' not in res[k]) for k, j in enumerate(jobs)],
            exhaustive_within_bounds=not incomplete, incomplete=incomplete[:40], unconfirmed_candidates=unconfirmed[:20], encoding_mismatches=mismatches[:20]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    print('%s %s: %d jobs, %d paths, %d instr, %d queries (%d unsat, %d sat, %d unknown), %.1fs solver, %d traces validated, %.1fs' % (pid, tier, len(jobs), tot['paths'], tot['instructions'], tot['queries'], tot['unsat'], tot['sat'], tot['unknown'], tot['solver_time'], validated, time.time() - T0))
    for x in incomplete[:8]: print('  incomplete: ' + x[:300])
    for x in unconfirmed[:8]: print('  unconfirmed: %s %s %s (%s) at %s' % (x['job'], x['kind'], x['label'], x['reason'][:100], x['where'][:160]))
    for x in mismatches[:5]: print('  mismatch: ' + x)
    for l in lines: print(l)
    return 1 if uniq else 0

COMMON = ['clang 18 -O1 IR semantics of the sources (no vectorisation, -ffp-contract=off); glibc/libstdc++ externals are modelled as listed in DESIGN.md',
          'symbolic doubles range over the stated boxes; rounding is covered by a sound error bound per term, subnormal underflow is not modelled', 'memory allocation does not fail']

if __name__ == '__main__':
    try:
        rc = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    except build.BuildError as e:
        print('build failed: ' + str(e)[-2000:]); rc = 0 if os.environ.get('VP_BUILD_OK') else 2
    sys.stdout.flush(); sys.exit(rc)
