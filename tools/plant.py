''' Plant the bugs that are described in a file of B(...) calls, keep the ones that count.

usage: plant.py SPEC.py [ID ...]   (development only: no registered check uses it)

For each one: the patch is made in a scratch copy of /repo, the demonstration has to pass without it
and fail with it, and the stable tests have to pass with it. The ones that do are written to
/verif/seeded/<id>/. Then the check of the property is run against the scratch copy (from a scratch copy
of /verif with the path of the repository replaced) and the outcome is appended to /tmp/w/planted.jsonl. '''
import json, os, re, shutil, subprocess, sys, tempfile, time

PY = '/opt/venv/bin/python'
BUGS = []
def B(id, prop, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))

def run(cmd, timeout, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')

def plant(bug, tests=True, checks=None):
    top = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    res = dict(id=bug['id'], prop=bug['prop'])
    try:
        repo = os.path.join(top, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        path = os.path.join(repo, bug['file'])
        src = open(path).read()
        for old, new in bug['edits']:
            if src.count(old) != 1:
                res['status'] = f'edit matches {src.count(old)} times: {old[:60]}'; return res
            src = src.replace(old, new)
        d = os.path.join(top, 'd'); os.mkdir(d)
        open(os.path.join(d, 'demo.py'), 'w').write(bug['demo'].strip('\n') + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# cwd: /repo. Exit 0 if the behaviour is right, nonzero otherwise.\nPYTHONDONTWRITEBYTECODE=1 exec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PIP_NO_INDEX='1')
        t = time.time()
        rc, out = run(['bash', os.path.join(d, 'demo.sh')], 250, env=env, cwd=repo)
        res['demo_clean'] = rc; res['demo_time'] = round(time.time() - t, 1)
        if rc != 0:
            res['status'] = 'demo fails on the clean tree: ' + out[-400:]; return res
        open(path, 'w').write(src)
        rc, out = run(['bash', os.path.join(d, 'demo.sh')], 250, env=env, cwd=repo)
        res['demo_patched'] = rc
        if rc == 0:
            res['status'] = 'demo passes on the patched tree'; return res
        if 'SyntaxError' in out or 'NameError' in out:
            res['status'] = 'broken patch ' + out[-300:]; return res
        res['how'] = out.strip().split('\n')[-1][:150]
        patch = subprocess.check_output(['git', '-C', repo, 'diff'], text=True)
        if tests:
            rc, out = run(['timeout', '-s', 'INT', '-k', '30', '600', PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-n', '8', '--runslow',
                '--hypothesis-profile=dev', '--hypothesis-seed=3', '--timeout=180', '--continue-on-collection-errors'], 700,
                env=dict(env, HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(top, 'hyp')), cwd=repo)
            res['tests'] = rc
            if rc != 0:
                res['status'] = 'killed by the tests: ' + ' | '.join(l for l in out.split('\n') if l.startswith(('FAILED', 'ERROR')))[:200]; return res
        s = f'/verif/seeded/{bug["id"]}'
        os.makedirs(s, exist_ok=True)
        open(s + '/patch.diff', 'w').write(patch)
        for n in ('demo.sh', 'demo.py'): shutil.copy(os.path.join(d, n), s)
        json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(s + '/meta.json', 'w'), indent=1)
        res['checks'] = {p: check(repo, top, p) for p in (checks or [bug['prop']])}
        res['status'] = 'ok'
        return res
    finally:
        shutil.rmtree(top, ignore_errors=True)

def check(repo, top, prop, tier='quick'):
    v = os.path.join(top, 'verif')
    if not os.path.exists(v):
        shutil.copytree('/verif', v, ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', 'evidence'))
        for root, _, files in os.walk(v):
            for f in files:
                if f.endswith('.py'):
                    p = os.path.join(root, f); s = open(p).read()
                    n = s.replace("'/repo'", repr(repo)).replace("'/verif'", repr(v))
                    if n != s: open(p, 'w').write(n)
        for n in ('evidence', 'replays'): os.makedirs(os.path.join(v, n), exist_ok=True)
    t = time.time()
    rc, out = run(['python3', 'check.py', prop], 950, cwd=v, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER=tier, PYTHONPATH=repo))
    lines = [l for l in out.split('\n') if l.startswith('VIOLATION')]
    return [rc, len(lines), round(time.time() - t, 1), '' if rc == 1 and lines else out[-300:]]

if __name__ == '__main__':
    spec = sys.argv[1]; ids = set(sys.argv[2:])
    exec(compile(open(spec).read(), spec, 'exec'))
    seen = set(); 
    for b in BUGS:
        assert b['id'] not in seen; seen.add(b['id'])
        if ids and b['id'] not in ids: continue
        r = plant(b, tests=not os.environ.get('NOTESTS'))
        print(json.dumps(r), flush=True)
        open('/tmp/w/planted.jsonl', 'a').write(json.dumps(r) + '\n')
