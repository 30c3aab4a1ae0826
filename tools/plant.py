"""Writes and verifies planted bugs.  seed(...) per bug; results in /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys
LIB = '/verif/tools/seedlib'
OUT = os.environ.get('PLANT_OUT', '/verif/seeded')
W = '/tmp/plantwork'
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if not os.path.isdir(W):
        sh(f'cp -a /repo {W}')
        # keep the tests away from /repo/target paths
    sh(f'git -C {W} checkout -q -- . && git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD')
def tests():
    env = dict(os.environ, CARGO_TARGET_DIR=f'{W}/target')
    r = sh('. /opt/vp/env.sh; cd /tmp/plantwork; export CARGO_TARGET_DIR=/tmp/plantwork/target; touch mlx9064x/src/lib.rs; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > target/plant.log 2>&1; cargo build --offline -q -p mlx9064x --benches 2>&1 | tail -3; python3 /opt/vp/results.py /tmp/plantwork/target/out.json cargo:/tmp/plantwork/target/plant.log', cwd=W)
    base = json.load(open('/opt/vp/BASELINE.json'))
    got = json.load(open(f'{W}/target/out.json'))
    return base, got, r.stdout
def passed_set(d):
    for k in ('passed', 'pass', 'stable'):
        if k in d: return set(d[k])
    raise SystemExit(str(d)[:500])
def seed(id, prop, edits, needs, breaks, main, feature=None, src='mlx9064x/src/'):
    d = f'{OUT}/{id}'
    if os.path.exists(d + '/meta.json') and '--force' not in sys.argv: return
    fresh()
    for f, old, new in edits:
        p = f'{W}/{src}{f}'
        t = open(p).read()
        if t.count(old) != 1:
            print(id, 'BAD EDIT', f, t.count(old), repr(old[:60])); return
        open(p, 'w').write(t.replace(old, new))
    diff = sh(f'git -C {W} diff').stdout
    base, got, log = tests()
    missing = passed_set(base) - passed_set(got)
    if missing:
        print(id, 'TESTS FAIL', sorted(missing)[:5], log[-600:]); 
        fresh(); return
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    body = open(LIB + '/demo.sh').read()
    if feature:
        body = body.replace('${DEMO_FEATURE:-std}', feature).replace('mlx9064x-test-data = { path = "$repo/mlx9064x-test-data" }\n', '')
        body = body.replace('cp "$here/main.rs" "$here/sim.rs"', 'cp "$here/main.rs"')
    open(d + '/demo.sh', 'w').write(body); os.chmod(d + '/demo.sh', 0o755)
    if not feature: shutil.copy(LIB + '/sim.rs', d + '/sim.rs')
    open(d + '/main.rs', 'w').write(('#[allow(unused_imports)]\nuse mlx9064x::*;\n\n' if feature else 'mod sim;\n#[allow(unused_imports)]\nuse sim::*;\n\n') + main.strip() + '\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r1 = sh(f'bash {d}/demo.sh', cwd=W)
    fresh()
    r0 = sh(f'bash {d}/demo.sh', cwd=W)
    if r0.returncode != 0 or r1.returncode in (0, 3):
        print(id, 'DEMO BAD', 'clean', r0.returncode, 'patched', r1.returncode); print((r0.stdout + r1.stdout)[-1500:])
        shutil.rmtree(d); return
    print(id, 'ok', (r1.stdout.strip().splitlines() or [''])[1 if len(r1.stdout.strip().splitlines())>1 else 0][:150])
    open('/root/seedok.txt', 'a').write(id + '\n')
