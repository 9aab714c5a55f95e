#!/usr/bin/env python3
"""Decide one property: check.py <property> [--tier quick|thorough] | check.py --replay FILE | check.py --build

Rebuilds the LLVM IR of /repo's crates from the current tree, runs the property's harnesses in the symbolic
engine, replays counterexamples natively against the same sources and writes evidence/<property>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 3: no verdict (build failure, incomplete run)."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
from props import PROPS
TGT = V + '/target'; RS = TGT + '/rs'; IR = RS + '/x86_64-unknown-linux-gnu/ir'
REPO = '/repo'
ENV = dict(os.environ, VERIF_ROOT=V, RUSTUP_TOOLCHAIN='1.76.0', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=RS,
           RUSTFLAGS='-C no-vectorize-loops -C no-vectorize-slp --emit=llvm-bc', PATH=os.environ.get('PATH', '') + ':/root/.cargo/bin')
# the harness crates: where they are, the crates that are encoded, the directories of /repo they come from, the native binary
KINDS = {'main': ('harness', ['lite_account_manager_common', 'lite_account_storage', 'lite_token_account_storage', 'lite_accounts_on_demand', 'lam_harness'], ['common', 'account_storage', 'token_account_storage', 'accounts_on_demand'], 'lam'),
         'sim': ('sim', ['lite_account_manager_common', 'lite_account_storage', 'lite_token_account_storage', 'lam_sim_app', 'lam_sim'], ['common', 'account_storage', 'token_account_storage', 'simulate_from_snapshot'], 'lamsim')}
def log(*a): print(*a, file=sys.stderr, flush=True)
def die(msg):
    log('NO VERDICT: ' + msg); sys.exit(3)

def tree_hash(kind):
    sub, _, dirs, _ = KINDS[kind]
    h = hashlib.sha256()
    fs = []
    for d in dirs:
        for r, ds, ff in os.walk(f'{REPO}/{d}'):
            ds[:] = [x for x in ds if x not in ('target', '.git')]
            fs += [r + '/' + f for f in ff]
    fs += [f for f in (f'{REPO}/Cargo.toml', f'{REPO}/Cargo.lock', V + '/check.py') if os.path.exists(f)]
    fs += glob.glob(V + '/harness/**', recursive=True) + (glob.glob(V + '/sim/**', recursive=True) if kind == 'sim' else [])
    for f in sorted(set(fs)):
        if os.path.isfile(f): h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()

def build(kind):
    """Engine, IR of all crates, native replay binary, symbol index; returns (root bitcode files, build info)."""
    sub, CRATES, _, _ = KINDS[kind]; os.makedirs(TGT, exist_ok=True)
    lk = open(TGT + '/.lock', 'w'); fcntl.flock(lk, fcntl.LOCK_EX)
    t0 = time.time()
    if not os.path.exists(TGT + '/engine/engine') or any(os.path.getmtime(f) > os.path.getmtime(TGT + '/engine/engine') for f in glob.glob(V + '/engine/*')):
        r = subprocess.run(['make', '-s', '-j4', '-C', V + '/engine', 'OUT=' + TGT + '/engine'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode or not os.path.exists(TGT + '/engine/engine'): die('engine build failed: ' + r.stdout.decode()[-800:])
    if len(glob.glob(TGT + '/stdbc/*.bc')) < 20:
        subprocess.run(['bash', V + '/setup_std.sh'], env=ENV, stdout=subprocess.DEVNULL, check=True)
    th = tree_hash(kind); stamp = IR + '/verif.stamp.' + kind
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != th:
        for p in glob.glob(IR + '/.fingerprint/lite-*') + glob.glob(IR + '/.fingerprint/lam-*'): shutil.rmtree(p, ignore_errors=True)
        if os.path.exists(stamp): os.remove(stamp)
    r = subprocess.run(['cargo', 'build', '--offline', '--profile', 'ir', '--target', 'x86_64-unknown-linux-gnu', '--message-format=json'], cwd=V + '/' + sub, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    roots = {}
    for l in r.stdout.decode(errors='replace').splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get('reason') == 'compiler-message' and m['message'].get('level') == 'error': log(m['message'].get('rendered', '')[:1500])
        if m.get('reason') == 'compiler-artifact':
            n = m['target']['name'].replace('-', '_')
            for f in m['filenames']:
                b = os.path.basename(f)
                if n in CRATES and f.endswith('.rlib'): roots[n] = os.path.dirname(f) + '/' + b[3:-5] + '.bc'
    if r.returncode: die('cargo build failed: ' + '\n'.join(x[:300] for x in r.stderr.decode(errors='replace').splitlines()[-8:]))
    for c in CRATES:
        if c not in roots: die('no artifact for ' + c)
        # a dep copied out of deps/ loses its hash: find it there
        if not os.path.exists(roots[c]):
            cand = sorted(glob.glob(f'{IR}/deps/{c}-*.bc'), key=os.path.getmtime)
            if not cand: die('no bitcode for ' + c)
            roots[c] = cand[-1]
    open(stamp, 'w').write(th)
    deps = sorted(f for f in glob.glob(IR + '/deps/*.bc') if not os.path.basename(f).startswith(('lite_', 'lam')))
    key = hashlib.sha256('\n'.join(f + str(os.path.getsize(f)) for f in deps).encode()).hexdigest()
    if not os.path.exists(TGT + '/deps.idx') or not os.path.exists(TGT + '/deps.key') or open(TGT + '/deps.key').read() != key:
        subprocess.run([TGT + '/engine/engine', '--mkindex', TGT + '/deps.idx'] + deps + sorted(glob.glob(TGT + '/stdbc/*.bc')), check=True, stdout=subprocess.DEVNULL)
        open(TGT + '/deps.key', 'w').write(key)
    open(TGT + '/roots.' + kind, 'w').write(' '.join('--root ' + roots[c] for c in CRATES))
    fcntl.flock(lk, fcntl.LOCK_UN)
    return [roots[c] for c in CRATES], {'build_s': round(time.time() - t0, 1), 'tree_sha256': th}

def kind_of(harness): return 'sim' if harness.startswith('s_') else 'main'
def native(harness, model, timeout=20, loops=None):
    """One native run on a model; returns (lines, hung)."""
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f: json.dump(model, f)
    try:
        try: r = subprocess.run([IR + '/' + KINDS[kind_of(harness)][3], harness, f.name] + ([str(loops)] if loops else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout); o, hung = r.stdout, False
        except subprocess.TimeoutExpired as e: o, hung = e.stdout or b'', True
    finally: os.unlink(f.name)
    return o.decode(errors='replace').splitlines(), hung

def reproduces(v, lines, hung):
    k = v['kind']
    if k == 'deadlock': return hung
    if k == 'panic': return any(l.startswith('PANIC') for l in lines)
    return any(l == 'CHECKFAIL ' + v['id'] for l in lines)

def replay(v, tries):
    if len(set(v.get('sched', []))) > 1:  # threads: repeat the scenario natively until the schedule is hit
        lines, hung = native(v['harness'], v, 45, 2000000)
        return (1 if reproduces(v, lines, hung and v['kind'] == 'deadlock') else 0), lines
    for i in range(tries):
        lines, hung = native(v['harness'], v, 10 if v['kind'] == 'deadlock' else 20)
        if reproduces(v, lines, hung): return i + 1, lines
    return 0, lines

def run_engine(h, cfg, roots, known, out, jobs):
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    cmd = [TGT + '/engine/engine', '--index', TGT + '/deps.idx', '--harness', h, '--out', out, '--time', str(cfg['time']), '--jobs', str(jobs)]
    for r in roots: cmd += ['--root', r]
    for k in known: cmd += ['--known', k]
    if cfg.get('fine'): cmd.append('--fine')
    for o in ('preempt', 'iterseed', 'steps', 'rec'):
        if o in cfg: cmd += ['--' + o, str(cfg[o])]
    try: p = subprocess.run(cmd, cwd=TGT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=cfg['time'] + 60)
    except subprocess.TimeoutExpired: die(f'{h}: engine did not stop')
    if not os.path.exists(out + '/summary.json'): die(f'{h}: engine ended without a summary: ' + p.stdout.decode(errors='replace')[-500:])
    s = json.load(open(out + '/summary.json'))
    res = {'summary': s, 'viol': [], 'path': [], 'check': {}, 'symcheck': {}, 'reach': {}, 'err': [], 'fns': set()}
    for f in sorted(glob.glob(out + '/w*.jsonl')):
        for l in open(f, errors='replace'):
            try: j = json.loads(l)
            except ValueError: continue
            t = j['t']
            if t == 'viol': res['viol'].append(j)
            elif t == 'path': res['path'].append(j)
            elif t == 'check':
                res['check'][j['id']] = res['check'].get(j['id'], 0) + j['n']; res['symcheck'][j['id']] = res['symcheck'].get(j['id'], 0) + j.get('sym', 0)
            elif t == 'reach': res['reach'][j['id']] = res['reach'].get(j['id'], 0) + j['n']
            elif t == 'err': res['err'].append(j)
            elif t == 'fns': res['fns'].update(j.get('names', []))
    return res

def main():
    a = sys.argv[1:]
    if a and a[0] == '--build':
        for k in a[1:] or KINDS: build(k)
        return 0
    if a and a[0] == '--replay':
        v = json.load(open(a[1])); build(kind_of(v['harness'])); n, lines = replay(v, 200)
        print('\n'.join(lines)); print('REPRODUCED' if n else 'NOT REPRODUCED'); return 1 if n else 0
    prop = a[0]; tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); kind = kind_of(PROPS[prop]['harnesses'][0][0]); roots, binfo = build(kind)
    kf = [k for k in json.load(open(V + '/known_findings.json'))['findings'] if k['property'] == prop]
    known_ids = {k['id'] for k in kf}
    spec = PROPS[prop]; jobs = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))
    agg = {k: 0 for k in ('paths', 'assumed', 'instrs', 'forks', 'queries', 'z3calls', 'sched_forks')}
    solver_s = 0.0; harn = []; fns = set(); samples = []; seen_known = {}; validated = 0; problems = []
    viol_line = None
    out = tempfile.mkdtemp(prefix='lamverif.')
    try:
        for h, cfg in spec['harnesses']:
            if cfg.get('tier', 'quick') == 'thorough' and tier != 'thorough': continue
            if cfg.get('tier') == 'quick-only' and tier == 'thorough': continue
            # a check has 900 s: a slow machine must not cut an exploration short before that
            left = 830 - (time.time() - t0) if tier != 'thorough' else 1e9
            cfg = dict(cfg, time=int(min(max(cfg.get('time', 0), 300), max(left, 5))))
            r = run_engine(h, cfg, roots, known_ids, out + '/' + h, jobs); s = r['summary']
            for k in agg: agg[k] += s[k]
            solver_s += s['solver_s']; fns |= r['fns']
            harn.append({'harness': h, 'bounds': cfg['bounds'], 'paths': s['paths'], 'instructions': s['instrs'], 'solver_queries': s['queries'], 'z3_calls': s['z3calls'], 'solver_s': round(s['solver_s'], 2), 'wall_s': round(s['wall_s'], 2),
                         'schedule_forks': s['sched_forks'], 'complete': not s['incomplete'], 'checks': r['check'], 'checks_decided_by_solver': {k: n for k, n in r['symcheck'].items() if n}, 'reached': r['reach']})
            log(f"{prop} {h}: {s['paths']} paths, {s['queries']} queries, {s['wall_s']:.1f} s, {s['viols']} violating paths")
            for v in r['viol']: v['harness'] = h; v['property'] = prop
            for v in r['viol']:
                if v['id'] in known_ids: seen_known.setdefault(v['id'], v)
            new = [v for v in r['viol'] if v['id'] not in known_ids]
            done = False
            for v in new[:6]:
                n, lines = replay(v, 60 if v['kind'] != 'deadlock' else 6)
                v['replay_attempt'] = n; v['native_output'] = lines[-40:]
                if n or v['kind'] == 'deadlock' or len(set(v.get('sched', []))) > 1:
                    os.makedirs(V + '/evidence/replay', exist_ok=True)
                    p = f"{V}/evidence/replay/{prop}.json"; json.dump(v, open(p, 'w'), indent=1)
                    log(f"  {v['kind']} {v['id']}: {v.get('info', '')}"); log('  inputs: ' + ' '.join(f'{x[0]}={x[2]}' for x in v['inputs'])); log('  native replay: ' + ('reproduced at attempt %d' % n if n else 'not reproduced (schedule-dependent; the recorded schedule is in the replay file)'))
                    viol_line = f'VIOLATION property={prop} replay={p}'; done = True; break
            if done: break
            if new: problems.append(f'{h}: counterexample for {new[0]["id"]} did not reproduce natively'); json.dump(new[0], open(TGT + '/unreproduced.json', 'w'))
            if r['err']: problems.append(f"{h}: engine error {str(r['err'][0])[:300]}")
            if s['incomplete'] or (s['stop'] and not new): problems.append(f'{h}: exploration incomplete')
            if s['errors'] and not r['err']: problems.append(f"{h}: {s['errors']} engine errors")
            if not s['paths']: problems.append(f'{h}: no path completed')
            for x in cfg.get('reach', []):
                if not r['reach'].get(x): problems.append(f'{h}: point {x} never reached')
            # translation validation: native runs of solver models must show the outputs the engine predicted
            ps = r['path']; step = max(1, len(ps) // 6)
            for p in ps[seed % step::step][:6] if ps else []:
                if cfg.get('novalidate'): break
                for att in range(30):
                    lines, hung = native(h, p)
                    got = [[x.split()[1], int(x.split()[2])] for x in lines if x.startswith('OBS ')]
                    ok = not hung and lines and lines[-1] == 'DONE' and not any(x.startswith(('CHECKFAIL', 'PANIC', 'INPUT', 'ASSUME')) and not (x.startswith('CHECKFAIL ') and x[10:] in known_ids) for x in lines) and got == [list(x) for x in p['obs']]
                    if ok: break
                if not ok: problems.append(f'{h}: native run differs from the symbolic run on inputs {p["inputs"]}: native {lines[-6:]} engine {p["obs"]}'); break
                validated += 1
            samples += [{'harness': h, 'inputs': p['inputs'][:40], 'obs': p['obs'][:10]} for p in ps[:1]]
    finally: shutil.rmtree(out, ignore_errors=True)
    for k in kf:
        if k['id'] in seen_known:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        elif not viol_line and not any(x.get('tier') == 'thorough' for _, x in spec['harnesses']): log(f"note: known finding {k['id']} did not show")
    code = [f for f in fns if any(c in f for c in KINDS[kind][1][:4])]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 1), 'coverage': {
        'explanation': 'Symbolic execution of the LLVM IR compiled from /repo\'s current sources: every path of the harnesses below within the stated bounds, each path condition and assertion decided by z3 over all values of the symbolic inputs. ' + spec['outside'],
        'violation': viol_line or 'none', 'no_verdict_reasons': problems, 'harnesses': harn, 'functions_encoded_from_repo': len(code), 'functions_encoded_total': len(fns),
        'functions_encoded': sorted(code)[:200], 'paths': agg['paths'], 'instructions': agg['instrs'], 'schedule_forks': agg['sched_forks'], 'solver_queries': agg['queries'], 'z3_calls': agg['z3calls'], 'solver_s': round(solver_s, 2),
        'models_replayed_natively_with_equal_outputs': validated, 'known_findings_seen': sorted(seen_known), 'sample_models': samples[:8], 'build': binfo}}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    if viol_line: print(viol_line); return 1
    if problems:
        for p in problems: log('NO VERDICT: ' + p[:600])
        return 3
    print(f"OK property={prop} paths={agg['paths']} queries={agg['queries']} wall={time.time() - t0:.0f}s"); return 0
if __name__ == '__main__': sys.exit(main())
