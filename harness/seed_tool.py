#!/usr/bin/env python3
"""Planted-bug bookkeeping (development tool, used by no check).

  seed_tool.py make DEFS.py     create seeded/<id>/ from definitions (name, property, needs,
                                breaks, edits [(file, old, new)], demo) after confirming them
  seed_tool.py eval [ID ...]    run the check of each bug's property against a scratch copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
BASE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix='gcsseed-')
    repo = os.path.join(d, 'repo')
    sh(['cp', '-a', '/repo', repo])
    return d, repo


def tests_pass(repo):
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-n', '8',
            '--timeout=300'], cwd=repo, env=env)
    return r.returncode == 0, r.stdout[-600:]


def demo(repo, folder):
    tmp = tempfile.mkdtemp(prefix='gcsdemo-')
    for f in os.listdir(folder):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
            shutil.copy(os.path.join(folder, f), tmp)
    r = sh(['bash', os.path.join(tmp, 'demo.sh')], cwd=repo, timeout=300)
    shutil.rmtree(tmp)
    return r.returncode, r.stdout[-500:]


DEMO_SH = '''#!/bin/bash
# exit 0 iff the property holds on the demonstrated case (cwd: the repository)
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 timeout 120 $PY "$(dirname "$0")/demo.py" > /dev/null
'''


def make(path, only=()):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns['BUGS']:
        name = b['name']
        if only and name not in only:
            continue
        folder = os.path.join(SEEDED, name)
        if os.path.exists(folder) and not only:
            continue
        d, repo = scratch()
        try:
            bad = None
            for f, old, new in b['edits']:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = 'edit matches %d times: %r' % (s.count(old), old[:60])
                    break
                open(p, 'w').write(s.replace(old, new))
            if bad:
                print(name, 'REJECT', bad)
                continue
            diff = sh(['git', '-C', repo, 'diff']).stdout
            tmp = tempfile.mkdtemp(prefix='gcsb-')
            open(os.path.join(tmp, 'patch.diff'), 'w').write(diff)
            open(os.path.join(tmp, 'demo.sh'), 'w').write(DEMO_SH)
            open(os.path.join(tmp, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                      open(os.path.join(tmp, 'meta.json'), 'w'), indent=1)
            ok, out = demo(repo, tmp)
            good, out2 = demo('/repo', tmp)
            if good != 0:
                print(name, 'REJECT demo fails on the clean tree', out2)
                continue
            if ok == 0:
                print(name, 'REJECT demo passes with the bug')
                continue
            t, tout = tests_pass(repo)
            if not t:
                print(name, 'REJECT tests fail', tout[-300:])
                continue
            if os.path.exists(folder):
                shutil.rmtree(folder)
            shutil.move(tmp, folder)
            print(name, 'kept')
        finally:
            shutil.rmtree(d)


def evaluate(ids):
    res = {}
    for name in ids or sorted(os.listdir(SEEDED)):
        folder = os.path.join(SEEDED, name)
        meta = json.load(open(os.path.join(folder, 'meta.json')))
        d, repo = scratch()
        try:
            r = sh(['git', '-C', repo, 'apply', os.path.join(folder, 'patch.diff')])
            if r.returncode:
                print(name, 'PATCH FAILS', r.stdout)
                continue
            env = dict(os.environ, GCS_REPO=repo)
            r = sh(['python3', os.path.join(VERIF, 'harness', 'run_check.py'), meta['property']],
                   env=env, timeout=900)
            caught = r.returncode == 1 and 'VIOLATION property=%s' % meta['property'] in r.stdout
            ev = json.load(open(os.path.join(VERIF, 'evidence', meta['property'] + '.json')))
            print(name, meta['property'], 'caught' if caught else 'MISSED rc=%d' % r.returncode,
                  ev['wall_s'], ev['coverage']['violated_clauses_by_property'],
                  '' if caught else r.stdout[-300:], flush=True)
            res[name] = caught
        finally:
            shutil.rmtree(d)
    print(sum(res.values()), 'of', len(res), 'caught')


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2], sys.argv[3:])
    else:
        evaluate(sys.argv[2:])
