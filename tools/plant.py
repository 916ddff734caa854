#!/usr/bin/env python3
"""Plants bugs: plant.py DEFS.py [ID...]  (DEFS.py defines BUGS = [dict(id, property, needs, breaks, edits, cases | main)]).

Each bug is made in a scratch copy of /repo, must build and pass the stable tests, must change what its
demonstration prints, and is then kept in /verif/seeded/<id>.  The property's check (run from a scratch copy of
/verif beside the scratch repository) is reported as catching it or not."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = VERIF + '/tools/demokit'
ROOT = '/tmp/plant'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', NO_COLOR='1',
           RUSTC_WRAPPER='', CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_DEBUG='0')
SCOPE = '--workspace --exclude dice-runtime --exclude dice --exclude dice-cli'.split()
BASE = json.load(open('/opt/vp/BASELINE.json'))

def sh(cmd, cwd, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def worker(slot, bug):
    base = f'{ROOT}/{slot}'
    repo, verif = base + '/repo', base + '/verif'
    os.makedirs(base, exist_ok=True)
    if not os.path.exists(repo):
        sh(['cp', '-a', '/repo', repo], '/')
    sh(['git', 'checkout', '-q', '--', '.'], repo)
    sh(['git', 'clean', '-qfd'], repo)
    os.makedirs(verif + '/harness', exist_ok=True)
    for f in ('run.sh', 'known-findings.txt', 'properties.jsonl', 'MANIFEST.json'):
        shutil.copy(f'{VERIF}/{f}', verif)
    sh(['rsync', '-a', '--delete', '--exclude', 'target', f'{VERIF}/harness/', verif + '/harness/'], '/') if shutil.which('rsync') else \
        sh(['bash', '-c', f'mkdir -p {verif}/harness/src; cp -p {VERIF}/harness/Cargo.* {verif}/harness/; cp -p {VERIF}/harness/src/* {verif}/harness/src/'], '/')
    d = f'{VERIF}/seeded/{bug["id"]}'
    res = {'id': bug['id']}
    keep = bug.get('patch') is None
    if keep:
        for f, old, new in bug['edits']:
            p = f'{repo}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return dict(res, error=f'{f}: {s.count(old)} occurrences of {old!r}')
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
    else:
        patch = open(bug['patch']).read()
        rc, out = sh(['git', 'apply', bug['patch']], repo)
        if rc:
            return dict(res, error='does not apply: ' + out)
    if keep:
        cur = None
        for l in patch.splitlines():
            if l.startswith('--- a/'):
                cur = sh(['git', 'show', '9f98bfc:' + l[6:]], repo)[1].splitlines()
            elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in cur:
                print('note:', bug['id'], 'changes a line that is not original:', l)
    env = dict(ENV, CARGO_TARGET_DIR=repo + '/target')
    rc, out = (0, '') if os.environ.get('FAST') else sh(['cargo', 'test', *SCOPE, '--no-fail-fast', '--offline', '--', '--test-threads', '4'], repo, env)
    import re
    passed = set(re.findall(r'^test (\S+) \.\.\. ok', out, re.M))
    want = set(t.split('::', 0)[0] for t in [])
    if 'error: could not compile' in out or 'error[' in out:
        return dict(res, error='does not build:\n' + out[-3000:])
    names = BASE.get('stable') or BASE.get('passing') or BASE.get('tests') or []
    failed = re.findall(r'^test (\S+) \.\.\. FAILED', out, re.M)
    if failed:
        return dict(res, error='tests fail: ' + ' '.join(failed))
    res['passed'] = len(passed)
    if keep:
        tmp = base + '/demo'
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(KIT, tmp)
        if 'main' in bug:
            open(tmp + '/main.rs', 'w').write(bug['main'])
            open(tmp + '/cases.txt', 'w').write('')
            for f in ('ast.rs', 'interp.rs', 'rt.rs', 'vm.rs', 'util.rs'):
                if f'mod {f[:-3]};' not in bug['main']:
                    os.remove(f'{tmp}/{f}')
        else:
            open(tmp + '/cases.txt', 'w').write(bug['cases'].lstrip('\n'))
        open(tmp + '/expected.txt', 'w').write('')
        sh(['bash', tmp + '/demo.sh'], '/repo', dict(ENV, DEMO_OUT=tmp + '/expected.txt'))
        rc, out = sh(['bash', tmp + '/demo.sh'], repo)
        exp = open(tmp + '/expected.txt').read()
        res['expected'] = exp
        if not exp or 'exit 0' not in exp:
            return dict(res, error='no expected output: ' + exp + out)
        if rc == 0:
            return dict(res, error='demo does not show it:\n' + exp)
        res['demo'] = out
        if rc == 2:
            return dict(res, error='demo build: ' + out)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        open(d + '/patch.diff', 'w').write(patch)
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    out = ''
    for c in ([bug['property']] + (bug.get('also') or [])):
        rc, o = sh(['bash', verif + '/run.sh', 'check', c, 'quick'], verif, dict(ENV, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick', **({'VH_FIRST': '1'} if os.environ.get('FAST') else {})))
        v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
        res.setdefault('checks', []).append((c, rc, v[:1], o[-600:] if rc not in (0,) and not v else ''))
        if os.environ.get('SHOW'):
            res['checks'].append(o[:3000])
    sh(['git', 'checkout', '-q', '--', '.'], repo)
    return res

def main():
    args = sys.argv[1:]
    if args and args[0] == '--recheck':
        ids = args[1:] or sorted(os.listdir(VERIF + '/seeded'))
        bugs = []
        for i in ids:
            m = json.load(open(f'{VERIF}/seeded/{i}/meta.json'))
            bugs.append(dict(id=i, property=m['property'], patch=f'{VERIF}/seeded/{i}/patch.diff', also=os.environ.get('ALSO', '').split()))
    else:
        ns = {}
        exec(open(args[0]).read(), ns)
        bugs = [b for b in ns['BUGS'] if not args[1:] or b['id'] in args[1:]]
    n = int(os.environ.get('JOBS', '3'))
    from queue import Queue
    q = Queue()
    for i in range(n):
        q.put(i)
    def go(b):
        s = q.get()
        try:
            return worker(s, b)
        except Exception as e:
            return {'id': b['id'], 'error': repr(e)}
        finally:
            q.put(s)
    caught = 0
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(go, bugs):
            if 'error' in r:
                print('##', r['id'], 'NOT KEPT:', r['error'], r.get('demo', ''))
            else:
                hit = bool(r['checks'][0][2])
                caught += hit
                print('##', r['id'], 'CAUGHT' if hit else 'MISSED', r['checks'])
                if not hit or os.environ.get('DEMO'):
                    print(r.get('demo', '')[:800])
            sys.stdout.flush()
    print(caught, 'of', len(bugs), 'caught')
main()
