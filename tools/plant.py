#!/usr/bin/env python3
"""plant.py ID...: confirm planted bugs of seeded/ in a scratch copy of /repo, bind-mounted over /repo
in a user namespace: patch applies, builds, keeps the stable tests, demo fails with and passes without it; then
runs the check of the property (and any given with --also) against it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '/tmp/mrepo'
def sh(cmd, **k):
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {M} /repo && cd /repo && {cmd}'], capture_output=True, text=True, **k)
def sync():
    if not os.path.exists(M):
        subprocess.run(['cp', '-a', '/repo', M], check=True)
    subprocess.run(f'cd {M} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, check=True)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def demo(i, clean=False):
    d = tempfile.mkdtemp(prefix='demo')
    shutil.copytree(f'{V}/seeded/{i}', d + '/d', ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    try:
        r = subprocess.run(['bash', f'{d}/d/demo.sh'], cwd='/repo', capture_output=True, text=True, timeout=300) if clean else sh(f'bash {d}/d/demo.sh', timeout=300)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r.returncode, (r.stdout + r.stderr)[-300:]
args = [a for a in sys.argv[1:] if not a.startswith('--')]
also = [a[7:] for a in sys.argv[1:] if a.startswith('--also=')]
quick = '--nocheck' in sys.argv
onlycheck = '--check' in sys.argv
for i in args:
    sync()
    meta = json.load(open(f'{V}/seeded/{i}/meta.json'))
    if not onlycheck:
        print(i, 'clean demo:', *demo(i, True), flush=True)
    r = subprocess.run(['git', '-C', M, 'apply', f'{V}/seeded/{i}/patch.diff'], capture_output=True, text=True)
    if r.returncode: print(i, 'APPLY FAILED', r.stderr); continue
    if not onlycheck:
        if '--build' in sys.argv:
            r = sh('bash /opt/vp/build.sh')
            if r.returncode: print(i, 'BUILD FAILED', '\n'.join(l for l in r.stdout.splitlines() if 'error' in l)[:600]); continue
        sh('bash /opt/vp/test.sh /tmp/plant_out.json')
        o = json.load(open('/tmp/plant_out.json'))
        miss = base - set(o['passed'])
        print(i, 'tests missing:', sorted(miss)[:5], flush=True)
        print(i, 'patched demo:', *demo(i), flush=True)
    if not quick:
        for p in [meta['property']] + also:
            e = dict(os.environ, VERIF_REPO=M, VERIF_BUILD='/tmp/mbuild', VERIF_SEED='1')
            r = subprocess.run(['python3', f'{V}/bin/check.py', p, 'quick'], cwd=V, env=e, capture_output=True, text=True)
            print(i, 'check', p, 'rc', r.returncode, '|', '\n'.join(r.stdout.splitlines()[-3:])[:500], flush=True)
sync()
