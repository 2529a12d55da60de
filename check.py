#!/usr/bin/env python3
# Driver: builds the encoding of the current /repo sources, runs the symbolic executor on the harnesses of a
# property, replays counterexamples against the natively compiled code and writes the evidence file.
import sys, os, json, subprocess, time, re, threading, shutil, hashlib, fcntl
VERIF = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, VERIF); sys.dont_write_bytecode = True
import config
CLANG = '/usr/bin/clang++-18'; BUILD = os.path.join(VERIF, 'build')
RT = ['rt_stl', 'rt_c', 'rt_locale', 'rt_lua', 'rt_stream', 'rt_file']     # models of libraries, part of every encoding
CORES = int(os.environ.get('SX_CORES', '8'))
BASE = ['-std=c++17', '-include', 'cstdint', '-I'+REPO+'/src', '-I'+VERIF+'/engine', '-I'+VERIF+'/harness', '-I/usr/include/lua5.2', '-w']
BCF = ['-O1', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-gline-tables-only', '-emit-llvm', '-c']
NATF = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer']

def log(*a): print(*a, file=sys.stderr, flush=True)
def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

class Fail(Exception): pass

def engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = run(['make', '-s', '-j8', '-C', os.path.join(VERIF, 'engine'), 'all'])
        if r.returncode: raise Fail('engine build failed:\n'+r.stdout[-3000:])

def parallel(fns, n):
    res = [None]*len(fns); err = []; idx = iter(range(len(fns))); lk = threading.Lock()
    def work():
        while True:
            with lk:
                i = next(idx, None)
            if i is None or err: return
            try: res[i] = fns[i]()
            except Exception as e: err.append(e)
    ts = [threading.Thread(target=work) for _ in range(min(n, len(fns)))]
    for t in ts: t.start()
    for t in ts: t.join()
    if err: raise err[0]
    return res

def compile_bc(src, out, extra):
    r = run([CLANG]+BASE+BCF+extra+[src, '-o', out])
    if r.returncode: raise Fail('compiling %s to IR failed:\n%s' % (src, r.stdout[-3000:]))
    return out
def compile_nat(src, out, extra):
    r = run(['g++']+BASE+NATF+extra+['-c', src, '-o', out])
    if r.returncode: raise Fail('compiling %s failed:\n%s' % (src, r.stdout[-3000:]))
    return out

class Cores:
    def __init__(s, n): s.n = n; s.cv = threading.Condition()
    def take(s, k):
        with s.cv:
            while s.n < k: s.cv.wait()
            s.n -= k
    def give(s, k):
        with s.cv: s.n += k; s.cv.notify_all()

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1); only = None; novalid = False
    i = 2
    while i < len(sys.argv):
        if sys.argv[i] == '--tier': tier = sys.argv[i+1]; i += 2
        elif sys.argv[i] == '--only': only = sys.argv[i+1]; i += 2
        else: log('unknown option '+sys.argv[i]); return 2
    P = config.PROPS[prop]; t0 = time.time()
    engine()
    W = os.path.join(BUILD, 'run-'+prop+('' if not os.environ.get('SX_TAG') else '-'+os.environ['SX_TAG'])); shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    runs = [r for r in P['runs'] if tier in r.get('tiers', ('quick', 'thorough'))]
    if only: runs = [r for r in runs if only in r['entry']]
    # ---- encode: compile the current sources to IR
    jobs = {}; nat = {}
    for r in runs:
        h = r['src']; ex = r.get('cflags', [])
        for kind, tab, cc, sfx in (('bc', jobs, compile_bc, '.bc'), ('nat', nat, compile_nat, '.o')):
            hk = h+sfx; tab[hk] = (lambda cc=cc, s=os.path.join(VERIF, 'harness', h), o=os.path.join(W, h+sfx), ex=ex: cc(s, o, ex))
            for m in r['mods']:
                mk = m+sfx; tab[mk] = (lambda cc=cc, s=os.path.join(REPO, 'src', m+'.cpp'), o=os.path.join(W, m+sfx): cc(s, o, []))
    tc = time.time(); parallel(list(jobs.values()), CORES); tc = time.time()-tc
    # code the sources need that is in another file than it was when the runs were listed
    defs = {}
    def nm(f):
        if f not in defs:
            q = run(['/usr/bin/llvm-nm-18', os.path.join(W, f+'.bc')]); d = set(); u = set()
            for l in q.stdout.splitlines():
                x = l.split()
                if len(x) >= 2: (u if x[-2] == 'U' else d).add(x[-1])
            defs[f] = (d, u)
        return defs[f]
    others = None; group = {}
    for r in runs:
        key = (r['src'],)+tuple(r['mods'])
        if key not in group:
            mods = list(r['mods'])
            while True:
                d = set().union(*[nm(f)[0] for f in [r['src']]+mods]); u = set().union(*[nm(f)[1] for f in [r['src']]+mods])
                need = {x for x in u-d if x.startswith('_Z') and '4mewa' in x and not x.startswith('_ZSt')}
                if not need: break
                if others is None:
                    others = [m[:-4] for m in sorted(os.listdir(os.path.join(REPO, 'src'))) if m.endswith('.cpp') and m[:-4]+'.bc' not in jobs and m not in ('mewa.cpp', 'printluatags.cpp')]
                    parallel([(lambda m=m: compile_bc(os.path.join(REPO, 'src', m+'.cpp'), os.path.join(W, m+'.bc'), [])) for m in others], CORES)
                    others += sorted(m[:-3] for m in jobs if not m.endswith('.cpp.bc'))
                add = [m for m in others if m not in mods and nm(m)[0] & need]
                if not add: break
                mods += add[:1]
                for m in add[:1]: nat.setdefault(m+'.o', (lambda m=m: compile_nat(os.path.join(REPO, 'src', m+'.cpp'), os.path.join(W, m+'.o'), [])))
            group[key] = mods
        r['mods'] = group[key]
    # native build for replay in the background
    natstate = {'err': None, 'exe': {}}
    def natbuild():
        try:
            parallel(list(nat.values())+[lambda: compile_nat(os.path.join(VERIF, 'engine', 'replay.cpp'), os.path.join(W, 'replay.o'), [])], 4)
            if any('rt_lua' in r.get('rt', []) for r in runs): compile_nat(os.path.join(VERIF, 'engine', 'rt', 'rt_lua.cpp'), os.path.join(W, 'rt_lua.o'), ['-DSX_NATIVE'])
            if any('rt_file' in r.get('rt', []) for r in runs): compile_nat(os.path.join(VERIF, 'engine', 'rt', 'rt_file.cpp'), os.path.join(W, 'rt_file.o'), ['-DSX_NATIVE'])
            done = {}
            for r in runs:
                # with the Lua library and, to confirm violations of the contract of its API that it does not detect itself, with the model of it
                for lua in ((['-llua5.2'], [os.path.join(W, 'rt_lua.o')]) if 'rt_lua' in r.get('rt', []) else ([],)):
                    key = (r['src'],)+tuple(r['mods'])+(bool(lua) and lua[0][0] == '/',)
                    if key in done: continue
                    exe = os.path.join(W, 'native-%d' % len(done)); done[key] = exe
                    q = run(['g++', '-fsanitize=address', '-rdynamic', '-o', exe, os.path.join(W, r['src']+'.o')]+[os.path.join(W, m+'.o') for m in r['mods']]+[os.path.join(W, 'replay.o')]+([os.path.join(W, 'rt_file.o')] if 'rt_file' in r.get('rt', []) else [])+lua+['-ldl'])
                    if q.returncode: raise Fail('linking the native replay failed:\n'+q.stdout[-2000:])
            natstate['exe'] = done
        except Exception as e: natstate['err'] = e
    nth = threading.Thread(target=natbuild); nth.start()
    # ---- solve
    tasks = []
    for r in runs:
        for a in r.get(tier, r.get('quick', [[]])):
            tasks.append((r, a))
    KF = []
    kfn = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kfn): KF = [k for k in json.load(open(kfn))['findings'] if k['property'] == prop]
    cores = Cores(CORES); results = []; rl = threading.Lock(); stop = []
    budget = P.get('budget', {}).get(tier, 700 if tier == 'quick' else 6000)
    def task(n, r, a):
        j = min(r.get('jobs', 1), CORES); cores.take(j)
        try:
            if stop: return
            out = os.path.join(W, 'result-%d.json' % n)
            left = budget-(time.time()-t0)
            if left < 5: left = 5
            cmd = [os.path.join(BUILD, 'symex'), '--entry', r['entry'], '--out', out, '--jobs', str(j), '--repo', REPO, '--max-time', str(int(min(left, r.get('time', 1e9)))), '--max-steps', str(r.get('steps', 10000000))]+r.get('opts', [])
            for x in a: cmd += ['--arg', str(x)]
            cmd += [os.path.join(W, r['src']+'.bc')]+[os.path.join(W, m+'.bc') for m in r['mods']]+[os.path.join(BUILD, x+'.bc') for x in RT]
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
            outp = []; rd = threading.Thread(target=lambda: outp.append(p.stdout.read())); rd.start()
            while p.poll() is None:
                if stop and time.time()-stop[0] > 20: # another run found a violation already
                    try: os.killpg(p.pid, 9)
                    except OSError: pass
                    p.wait(); rd.join(); return
                time.sleep(0.02)
            rd.join(); p.stdout = ''.join(outp)
            try: res = json.load(open(out))
            except Exception: res = None
            with rl: results.append((n, r, a, p.returncode, res, p.stdout))
            if res and [v for v in res['violations'] if not any(re.search(k['match'], v['msg']+' @ '+str(v['loc'])) for k in KF)]: stop.append(time.time())
        finally: cores.give(j)
    order = sorted(range(len(tasks)), key=lambda n: -tasks[n][0].get('jobs', 1))
    ths = [threading.Thread(target=task, args=(n,)+tasks[n]) for n in order]
    for t in ths: t.start()
    for t in ths: t.join()
    nth.join()
    if natstate['err']: raise natstate['err']
    results.sort(key=lambda x: x[0])
    exe = lambda r, model: natstate['exe'][(r['src'],)+tuple(r['mods'])+(model,)]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0', MALLOC_PERTURB_='85')
    def native(r, a, varlines, fn, model=False):
        with open(fn, 'w') as f: f.write('\n'.join(varlines)+'\n')
        try:
            q = subprocess.run([exe(r, model), r['entry'], fn]+[str(x) for x in a], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=20, env=env, cwd=W, preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_CPU, (25, 25)))
            return q.returncode, q.stdout
        except subprocess.TimeoutExpired as e: return 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else ''
    # ---- judge
    incomplete = []; viol = []; known = []; unconf = []; covered = {}; funcs = set(); samples = []; tot = dict(paths=0, instructions=0, forks=0, asserts=0, assert_queries=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0); lines = {}; validated = 0; bad = []
    vdir = os.path.join(BUILD, 'replay'); os.makedirs(vdir, exist_ok=True)
    reach = {}; decl = {}
    for n, r, a, rc, res, outp in results:
        tag = '%s(%s)' % (r['entry'], ','.join(map(str, a)))
        if res is None: incomplete.append(tag+': engine failure: '+outp.strip()[-400:]); continue
        for k in ('paths', 'instructions', 'forks', 'asserts', 'assert_queries'): tot[k] += res.get(k, 0)
        s = res['solver']
        for k in ('queries', 'sat', 'unsat', 'unknown'): tot[k] += s[k]
        tot['solver_s'] += s['time_s']
        funcs.update(res['functions'])
        for k, v in res['lines'].items(): lines[os.path.relpath(k, REPO)] = max(lines.get(os.path.relpath(k, REPO), 0), v)
        for k, v in res['reach'].items(): reach[k] = reach.get(k, 0)+v
        for d in res['declared']: decl[d] = tag
        if not res['complete']: incomplete.append(tag+': '+'; '.join(res['why']+res['errors'])[:400])
        if res['paths'] == 0 and not res['violations']: incomplete.append(tag+': no path completed')
        for v in res['violations']:
            fn = os.path.join(vdir, '%s-%s-%d.txt' % (prop, r['entry'], len(viol)+len(unconf)+len(known)))
            vl = ['# %s' % tag, '# %s: %s' % (v['kind'], v['msg']), '# at '+str(v['loc'])]+['%s=%s' % (x[0], x[1]) for x in v['vars']]
            for model in (False, True):
                if model and (conf or 'rt_lua' not in r.get('rt', [])): break
                rcn, on = native(r, a, vl, fn, model)
                conf = (rcn == 1 and 'assertion failed' in on) or rcn == 'timeout' or (rcn not in (0, 1, 77, 2))
            with open(fn+'.log', 'w') as f: f.write('exit %s\n%s' % (rcn, on))
            hit = None
            for k in KF:
                if k.get('entry', r['entry']) == r['entry'] and re.search(k['match'], v['msg']+' @ '+str(v['loc'])): hit = k
            if not conf: unconf.append('%s: %s: %s at %s (native run: %s) %s' % (tag, v['kind'], v['msg'], v['loc'], rcn, fn))
            elif hit: known.append((hit, fn))
            else: viol.append((tag, v, fn, rcn))
        sm = res['samples'][:r.get('validate', 4)]
        samples += ['%s %s' % (tag, x[:300]) for x in res['samples'][:2]]
        for si, x in enumerate(sm):
            vl = [t for t in x.split(' [')[0].split(' ') if '=' in t]
            rcn, on = native(r, a, vl, os.path.join(W, 'sample-%d-%d.txt' % (n, si)))
            if rcn == 0: validated += 1
            elif res['violations']: pass
            else: bad.append('%s: native run of sample %s ended with %s: %s' % (tag, x[:200], rcn, on[-500:]))
    if len(results) < len(tasks) and not viol: incomplete.append('%d of %d runs were stopped because of a counterexample that was not confirmed' % (len(tasks)-len(results), len(tasks)))
    missing = [d+' (declared by '+decl[d]+')' for d in decl if d not in reach]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'model_checking'), 'wall_s': round(time.time()-t0, 1), 'violations': len(viol),
        'coverage': {'states': tot['paths'], 'transitions': tot['instructions'], 'traces_validated_against_impl': validated, 'samples': samples[:20],
            'exhaustive': not incomplete, 'meaning': 'states: symbolic paths explored to their end; transitions: IR instructions executed symbolically; samples: solver models of explored paths, a selection of which is re-run on the natively compiled code',
            'bounds': P['bounds'], 'runs': [{'run': '%s(%s)' % (r['entry'], ','.join(map(str, a))), 'paths': res and res['paths'], 'complete': bool(res and res['complete']), 'longest_path': res and res['longest_path'], 'wall_s': res and res['wall_s']} for n, r, a, rc, res, o in results],
            'forks': tot['forks'], 'assertions_checked': tot['asserts'], 'assertion_queries_to_solver': tot['assert_queries'], 'solver_queries': tot['queries'], 'solver_sat': tot['sat'], 'solver_unsat': tot['unsat'], 'solver_unknown': tot['unknown'], 'solver_s': round(tot['solver_s'], 2),
            'functions_encoded': sorted(funcs), 'lines_encoded_per_file': lines, 'witnesses': reach, 'known_findings_seen': [k['id'] for k, f in known], 'compile_s': round(tc, 1)},
        'assumptions': P.get('assumptions', [])+config.COMMON_ASSUMPTIONS}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop+'.json'), 'w'), indent=1)
    log('%s %s: %d runs, %d paths, %d instructions, %d queries (%.1fs solver), %d native validations, %.1fs' % (prop, tier, len(results), tot['paths'], tot['instructions'], tot['queries'], tot['solver_s'], validated, time.time()-t0))
    for k, f in {k['id']: (k, f) for k, f in known}.values(): print('KNOWN-FINDING: property=%s %s: %s' % (prop, k['id'], k['what']))
    for tag, v, fn, rcn in viol[:5]:
        print('%s: %s: %s at %s; native run: %s' % (tag, v['kind'], v['msg'], v['loc'], rcn)); print('VIOLATION property=%s replay=%s' % (prop, fn))
    sys.stdout.flush()
    if viol: return 1
    for x in unconf: log('UNCONFIRMED counterexample: '+x)
    for x in incomplete: log('INCOMPLETE: '+x)
    for x in missing: log('WITNESS NOT REACHED: '+x)
    for x in bad: log('ENGINE/NATIVE MISMATCH: '+x)
    return 2 if (unconf or incomplete or missing or bad) else 0

if __name__ == '__main__':
    try: rc = main()
    except Fail as e: log(str(e)); rc = 2
    sys.exit(rc)
