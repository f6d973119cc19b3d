#!/usr/bin/env python3
"""Create / verify planted bugs (run by hand, never by a check).

  seed.py verify ID...      confirm build, stable tests, demo on both trees
  seed.py detect ID...      which checks report it
"""
import atexit, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAKE = None


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def scratch():
    'A scratch clone of /repo (its last commit).'
    d = tempfile.mkdtemp(prefix='seed_')
    r = sh(f'git clone -q /repo {d}/repo')
    assert r.returncode == 0, r.stderr
    return f'{d}/repo'


def drop(repo):
    shutil.rmtree(os.path.dirname(repo))


def make(sid, prop, path, pairs, needs, breaks, demo):
    'pairs: list of (old, new) on a file, or dict file -> list.'
    d = f'{ROOT}/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    files = pairs if isinstance(pairs, dict) else {path: pairs}
    global MAKE
    if MAKE is None:
        MAKE = scratch()
        atexit.register(drop, MAKE)
    try:
        for fn, prs in files.items():
            p = f'{MAKE}/{fn}'
            s = open(p).read()
            for old, new in prs:
                assert s.count(old) == 1, (sid, fn, s.count(old), old)
                s = s.replace(old, new)
            open(p, 'w').write(s)
        diff = sh(f'git -C {MAKE} diff').stdout
    finally:
        sh(f'git -C {MAKE} checkout -- .')
    open(f'{d}/patch.diff', 'w').write(diff)
    with open(f'{d}/meta.json', 'w') as f:
        json.dump({'property': prop, 'needs': needs,
                   'what_it_breaks': breaks}, f, indent=1)
        f.write('\n')
    with open(f'{d}/demo.sh', 'w') as f:
        f.write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                'export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 '
                'CUDA_VISIBLE_DEVICES= PYTHONPATH=$PWD MPLBACKEND=Agg '
                'PYTHONWARNINGS=ignore\n'
                'exec /opt/venv/bin/python "$here/demo.py"\n')
    open(f'{d}/demo.py', 'w').write(demo.lstrip('\n'))


BASE = '722641c'


def original(repo, patch):
    'Are the lines which are removed those of the original repository?'
    path, bad, good = None, [], 0
    for line in open(patch):
        if line.startswith('--- a/'):
            path = line[6:].strip()
            old = sh(f'git -C {repo} show {BASE}:{path}').stdout.splitlines()
        elif line.startswith('-') and line[1:].strip():
            if line[1:].rstrip('\n') in old:
                good += 1
            else:
                bad.append(line)
    return good > 0 and not bad, f'not original: {bad}'


def verify(sid):
    d = f'{ROOT}/seeded/{sid}'
    repo = scratch()
    tmp = os.path.dirname(repo)
    os.mkdir(f'{tmp}/demo')
    # The demo runs from another place, without the patch beside it.
    sh(f'cp {d}/* {tmp}/demo/; rm -f {tmp}/demo/*.diff {tmp}/demo/meta.json')
    sh(f"sed 's#/repo#{repo}#g' /opt/vp/test.sh > {tmp}/test.sh")
    res = []
    r = sh(f'bash {tmp}/demo/demo.sh', cwd=repo, timeout=300)
    res.append(('demo clean', r.returncode == 0, (r.stdout + r.stderr)[-500:]))
    base = json.load(open('/opt/vp/BASELINE.json'))
    a = sh(f'git -C {repo} apply {d}/patch.diff')
    res.append(('apply', a.returncode == 0, a.stderr))
    res.append(('original lines', *original(repo, f'{d}/patch.diff')))
    r = sh(f'bash {tmp}/demo/demo.sh', cwd=repo, timeout=300)
    res.append(('demo patched', r.returncode != 0, (r.stdout + r.stderr)[-300:]))
    sh(f'bash {tmp}/test.sh {tmp}/out.json')
    out = open(f'{tmp}/out.json').read()
    ok = stable_ok(base, json.loads(out))
    res.append(('tests', not ok, ok))
    good = all(r[1] for r in res)
    print(sid, 'OK' if good else 'BAD', '' if good else [r for r in res if not r[1]],
          flush=True)
    if good:
        print('   patched demo says:', res[3][2].strip().splitlines()[-1:], flush=True)
    drop(repo)
    return good


def names(x):
    if isinstance(x, dict):
        for k in ('passed', 'pass', 'stable', 'tests'):
            if k in x:
                v = x[k]
                return set(v if isinstance(v, list) else
                           [n for n, s in v.items() if s in ('pass', 'passed', True)])
    return set(x)


def stable_ok(base, out):
    return sorted(names(base) - names(out))


def detect(sid, props=None, tier='quick'):
    d = f'{ROOT}/seeded/{sid}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    repo = scratch()
    a = sh(f'git -C {repo} apply {d}/patch.diff')
    assert a.returncode == 0, (sid, a.stderr)
    got = []
    for p in props or [prop]:
        r = sh(f'bash {ROOT}/check.sh {p} --tier {tier}', timeout=1500,
               env=dict(os.environ, BEER_REPO=repo))
        hit = r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout
        print(sid, p, 'CAUGHT' if hit else f'missed rc={r.returncode}',
              (r.stdout + r.stderr).strip().splitlines()[-2][-200:] if hit
              else (r.stdout + r.stderr)[-400:], flush=True)
        if hit:
            got.append(p)
    drop(repo)
    f = f'{ROOT}/tools/detection.json'
    det = json.load(open(f)) if os.path.exists(f) else {}
    det[sid] = ', '.join(got) or 'missed'
    json.dump(det, open(f, 'w'), indent=1, sort_keys=True)


if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    if not ids:
        ids = sorted(os.listdir(f'{ROOT}/seeded'))
    for i in ids:
        (verify if cmd == 'verify' else detect)(i)
