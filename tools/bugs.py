#!/usr/bin/env python3
"""Planted bugs. bugs.py make FILE: create seeded/<id>/ from a spec file (python: BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=rust test body)]).
bugs.py try ID...: apply in /repo, run the demo (must fail), the stable tests with --tests, and the check of the property (must exit 1), undo."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get('LAM_R', '/repo')
SH = r'''#!/bin/bash
# Run in the repository after its build: exit 0 when the behaviour is right, nonzero when it is broken.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=/tmp/lam_demo_ws
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$R/target"
rm -rf /tmp/lam_demo_ws && mkdir -p "$W/demo/tests" || exit 2
cp -r "$R/common" "$R/account_storage" "$R/token_account_storage" "$R/accounts_on_demand" "$R/Cargo.lock" "$W/"
sed 's/"simulate_from_snapshot",\{0,1\}/"demo"/' "$R/Cargo.toml" > "$W/Cargo.toml"
cat > "$W/demo/Cargo.toml" <<'X'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[lib]
path = "lib.rs"
[dev-dependencies]
lite-account-manager-common = { workspace = true }
lite-account-storage = { workspace = true }
lite-token-account-storage = { workspace = true }
lite-accounts-on-demand = { workspace = true }
solana-sdk = { workspace = true }
solana-program = { workspace = true }
spl-token = { workspace = true }
spl-token-2022 = { workspace = true }
serde_json = { workspace = true }
bincode = { workspace = true }
dashmap = { workspace = true }
itertools = { workspace = true }
anyhow = { workspace = true }
X
: > "$W/demo/lib.rs"
cp "$D/demo.rs" "$W/demo/tests/demo.rs"
cd "$W" && timeout 280 cargo test --offline --workspace --test demo > "$W/log" 2>&1
RC=$?
rm -rf /tmp/lam_demo_ws/demo/tests
tail -n 40 "$W/log"
exit $RC
'''
SIMSH = r'''#!/bin/bash
# Run in the repository after its build: exit 0 when the behaviour is right, nonzero when it is broken.
# sim/ has stand-ins for the crates that cannot be fetched here; the simulator itself is compiled as it is.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=/tmp/lam_demo_ws
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$R/target"
rm -rf /tmp/lam_demo_ws && mkdir -p "$W/demo/tests" || exit 2
cp -r "$R/common" "$R/account_storage" "$R/token_account_storage" "$R/accounts_on_demand" "$R/simulate_from_snapshot" "$R/Cargo.lock" "$D/sim" "$W/"
rm "$W/simulate_from_snapshot/Cargo.toml"
sed 's/"simulate_from_snapshot",\{0,1\}/"demo"/' "$R/Cargo.toml" > "$W/Cargo.toml"
cat > "$W/demo/Cargo.toml" <<'X'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[lib]
path = "lib.rs"
[dev-dependencies]
lam-sim-app = { path = "../sim/app" }
lite-account-manager-common = { workspace = true }
lite-account-storage = { workspace = true }
lite-token-account-storage = { workspace = true }
solana-sdk = { workspace = true }
solana-rpc-client-api = "~1.18.23"
solana-account-decoder = "~1.18.23"
solana-accounts-db = { path = "../sim/stubs/solana-accounts-db" }
solana-runtime = { path = "../sim/stubs/solana-runtime" }
bincode = { workspace = true }
base64 = "0.21.0"
anyhow = { workspace = true }
async-trait = "0.1.73"
clap = { path = "../sim/stubs/clap" }
tar = { path = "../sim/stubs/tar" }
tokio = { package = "sim-tokio", path = "../sim/stubs/sim-tokio" }
jsonrpsee = { path = "../sim/stubs/jsonrpsee" }
quic-geyser-client = { path = "../sim/stubs/quic-geyser-client" }
quic-geyser-common = { path = "../sim/stubs/quic-geyser-common" }
X
: > "$W/demo/lib.rs"
cp "$D/demo.rs" "$W/demo/tests/demo.rs"
cd "$W" && timeout 280 cargo test --offline -p demo --test demo > "$W/log" 2>&1
RC=$?
rm -rf /tmp/lam_demo_ws/demo/tests
tail -n 40 "$W/log"
exit $RC
'''
PRE = open(V + '/tools/demo_prelude.rs').read()
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean(): assert not sh(f'git -C {R} status --porcelain --untracked-files=no').stdout.strip(), 'repo not clean'
def make(spec):
    g = {}; exec(open(spec).read(), g); clean()
    for b in g['BUGS']:
        d = f"{V}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in b['edits']:
                s = open(f'{R}/{f}').read(); assert s.count(old) == 1, (b['id'], f, s.count(old), old); open(f'{R}/{f}', 'w').write(s.replace(old, new))
            diff = sh(f'git -C {R} diff').stdout.decode()
        finally: sh(f'git -C {R} checkout -- .')
        sim = b.get('sim')
        if sim:
            sh(f'rm -rf {d}/sim; mkdir {d}/sim; cp -r {V}/sim/stubs {V}/sim/app {d}/sim/')
            t = open(d + '/sim/app/Cargo.toml').read()
            for r in ('/tmp/rr/repo/', '/repo/'): t = t.replace(f'path = "{r}', 'path = "../../')
            open(d + '/sim/app/Cargo.toml', 'w').write(t)
        open(d + '/patch.diff', 'w').write(diff); open(d + '/demo.rs', 'w').write((open(V + '/tools/sim_prelude.rs').read() if sim else PRE) + b['demo']); open(d + '/demo.sh', 'w').write(SIMSH if sim else SH); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        # which original lines does it touch
        print('made', b['id'])
def tryit(i, tests):
    clean(); d = f'{V}/seeded/{i}'; prop = json.load(open(d + '/meta.json'))['property']; res = [i]
    r = sh(f'bash {d}/demo.sh', cwd=R); res.append('clean-demo:%d' % r.returncode)
    if r.returncode: print(r.stdout.decode()[-1500:])
    a = sh(f'git -C {R} apply {d}/patch.diff'); assert a.returncode == 0, a.stdout
    try:
        r = sh(f'bash {d}/demo.sh', cwd=R); res.append('bug-demo:%d' % r.returncode)
        if b'error[' in r.stdout or b'error: could not compile' in r.stdout: print(r.stdout.decode()[-2500:])
        if tests:
            r = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/bt.json'); ok = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) <= set(json.load(open('/tmp/bt.json'))['passed']); res.append('tests:' + ('pass' if ok else 'FAIL'))
        t = time.time(); r = sh(f'python3 {V}/check.py {prop}', cwd=V, env=dict(os.environ, VERIF_TIER='quick')); o = r.stdout.decode(); res.append(f'check {prop}:{r.returncode} {time.time()-t:.0f}s')
        if r.returncode != 1: print(o[-1200:])
        else: res.append(next((l.strip()[:150] for l in o.splitlines() if l.startswith('  ') and 'inputs' not in l), ''))
    finally: sh(f'git -C {R} checkout -- .')
    print(' | '.join(res), flush=True)
if sys.argv[1] == 'make': make(sys.argv[2])
else:
    for i in [x for x in sys.argv[2:] if x[0] != '-'] or sorted(os.listdir(V + '/seeded')): tryit(i, '--tests' in sys.argv)
