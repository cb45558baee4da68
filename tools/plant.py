#!/usr/bin/env python3
"""Makes and confirms planted bugs.

A batch file calls bug(id, prop, edits, demo, needs, breaks, files=()).
For each one, in a scratch copy of /repo: apply the edits, compare with the original commit (only its lines may change),
run the tests and the demonstration with and without the change, then the check of the property (and others given with --checks).

  tools/plant.py BATCH.py [ID...]       write /verif/seeded/ID and report
  tools/plant.py --recheck [ID...]      apply the saved patches again and run the checks
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '7d55f06'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', PYTHONHASHSEED='0')
ENV.pop('VF_REPO', None)
BUGS = []

DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONUTF8=1
exec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"
'''
HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
'''

def bug(id, prop, edits, demo, needs, breaks, files=()):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, files=files))

def run(cmd, cwd, timeout=900, **env):
    try:
        return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, 'TIMEOUT ' + str(e.stdout)[-500:])

def original_lines(copy, patch):
    """Removed lines that are not of the original commit"""
    bad, n = [], 0
    cur = None
    blame = {}
    for l in patch.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
        elif l.startswith('@@'):
            ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            n += 1
            if cur not in blame:
                blame[cur] = [x.split(' ', 1)[0].lstrip('^') for x in run(['git', 'blame', '-s', 'HEAD', '--', cur], '/repo').stdout.splitlines()]
            if not blame[cur][ln - 1].startswith(BASE):
                bad.append(l)
            ln += 1
        elif l.startswith(' '):
            ln += 1
    return bad, n

def one(b, quick=False):
    out = os.path.join(V, 'seeded', b['id'])
    tmp = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    log = []
    try:
        copy = os.path.join(tmp, 'repo')
        run(['cp', '-a', '/repo', copy], '/tmp')
        run(['git', 'checkout', '-q', '--', '.'], copy)
        if 'edits' in b:
            for f, old, new in b['edits']:
                p = os.path.join(copy, f)
                s = open(p).read()
                if s.count(old) != 1:
                    return b['id'], f"EDIT: {f}: {s.count(old)} matches of {old!r}"
                open(p, 'w').write(s.replace(old, new))
            patch = run(['git', 'diff'], copy).stdout
            bad, n = original_lines(copy, patch)
            if bad:
                log.append(f"NOT ORIGINAL: {bad}")
            if not n:
                log.append("only adds lines")
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, 'patch.diff'), 'w').write(patch)
            open(os.path.join(out, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(out, 'demo.sh'), 0o755)
            open(os.path.join(out, 'demo.py'), 'w').write(HEAD + b['demo'].lstrip('\n'))
            shutil.rmtree(os.path.join(out, 'support'), ignore_errors=True)
            if b['files']:
                # writers of the formats, independent of the repository
                os.makedirs(os.path.join(out, 'support'))
                open(os.path.join(out, 'support', '__init__.py'), 'w').close()
                for f in b['files']:
                    shutil.copy(os.path.join(V, 'vf', f), os.path.join(out, 'support', f))
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        else:
            r = run(['git', 'apply', os.path.join(out, 'patch.diff')], copy)
            if r.returncode:
                return b['id'], 'PATCH DOES NOT APPLY: ' + r.stdout
            b['prop'] = json.load(open(os.path.join(out, 'meta.json')))['property']
        d = os.path.join(tmp, 'demo'); shutil.copytree(out, d)
        for f in ('patch.diff', 'meta.json'):
            os.remove(os.path.join(d, f))
        demo = os.path.join(d, 'demo.sh')
        r = run(['bash', demo], '/repo', 300)
        if r.returncode:
            log.append(f"DEMO FAILS ON CLEAN ({r.returncode}): {r.stdout[-800:]}")
        r = run(['bash', demo], copy, 300)
        if not r.returncode:
            log.append("DEMO PASSES ON PATCHED")
        else:
            log.append('demo: ' + (r.stdout.strip().splitlines() or ['-'])[-1][:150])
        r = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], copy, 300, PYTHONPATH=copy)
        if '30 passed' not in r.stdout or r.returncode:
            log.append(f"TESTS: {r.stdout[-600:]}")
        # the check
        r = run([os.path.join(V, 'check'), b['prop']] + (['--tier', 'quick']), V, 900, VF_REPO=copy, VF_OUT=os.path.join(tmp, 'ev'), VERIF_SEED='1')
        viol = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        log.append(f"{b['prop']}: {'CAUGHT' if r.returncode == 1 and viol else 'MISSED exit %d' % r.returncode} {r.stdout.strip().splitlines()[-1][:200] if r.stdout.strip() else ''}")
        what = [l for l in r.stdout.splitlines() if not l.startswith('VIOLATION')][:1]
        if viol:
            log.append(str(what)[:250])
    finally:
        shutil.rmtree(tmp)
    return b['id'], '\n   '.join(log)

def main():
    args = sys.argv[1:]
    if args[0] == '--recheck':
        ids = args[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
        bugs = [{'id': i} for i in ids]
    else:
        runpy.run_path(args[0], init_globals={'bug': bug})
        bugs = [b for b in BUGS if not args[1:] or b['id'] in args[1:]]
    with ThreadPoolExecutor(4) as ex:
        for i, l in ex.map(one, bugs):
            print(f"== {i}\n   {l}", flush=True)

if __name__ == '__main__':
    main()
