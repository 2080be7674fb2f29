"""Plants the bugs of tools/seeds*.py: makes patch, demo and meta.json in /verif/seeded/<id>/, after checking in a scratch copy of /repo
that the patch touches original lines only, that the tests still pass and that the demo tells the trees apart.
usage: plant.py [id ...]"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'abe5187'
SEEDS = {}
def seed(id, prop, edits, needs, breaks, demo, files=()):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files)
for f in sorted(glob.glob(f'{V}/tools/seeds*.py')): exec(open(f).read())
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    want = sys.argv[1:] or [s for s in SEEDS if not os.path.exists(f'{V}/seeded/{s}/patch.diff')]
    work = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    repo = work + '/repo'
    sh(f'cp -a /repo {repo}')
    bad = 0
    for id in want:
        s = SEEDS[id]
        out = f'{work}/{id}'
        os.makedirs(out)
        sh('git checkout -q -- . && git clean -qfd', cwd=repo)
        err = None
        touched = []
        for f, old, new in s['edits']:
            t = open(f'{repo}/{f}').read()
            if t.count(old) != 1: err = f'{f}: old text found {t.count(old)} times: {old[:60]!r}'; break
            open(f'{repo}/{f}', 'w').write(t.replace(old, new)); touched.append(f)
        if err: print('BAD', id, err); bad += 1; continue
        diff = sh('git diff', cwd=repo).stdout
        open(f'{out}/patch.diff', 'w').write(diff)
        # removed lines must be original ones
        orig = 0
        for f in set(touched):
            blame = sh(f'git blame -s HEAD -- {f}', cwd=repo).stdout.split('\n')
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh(f'git diff -U0 -- {f}', cwd=repo).stdout, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                for k in range(a, a + n):
                    if blame[k - 1].lstrip('^').startswith(BASE[:7]): orig += 1
                    else: err = f'{f}:{k} is a line of a fix commit: {blame[k - 1][:80]}'
        if not orig and not err: err = 'no original line is changed'
        open(f'{out}/demo.py', 'w').write('import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.path.insert(0, os.getcwd())\n' + s['demo'].strip() + '\n')
        open(f'{out}/demo.sh', 'w').write('#!/bin/bash\n# run in the repository; exit 0 if it behaves\nexec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        for f in s['files']: shutil.copy(f'{V}/tools/seed_support/{f}', out)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{out}/meta.json', 'w'), indent=1)
        if not err:
            if sh(f'/opt/venv/bin/python -m compileall -q UnicodeData module_builder', cwd=repo).returncode: err = 'does not compile'
        if not err:
            t = sh('/opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider tests --ignore=tests/test_charNames.py --ignore=tests/test_layoutProps.py --ignore=tests/test_normalizer2.py --ignore=tests/test_exhaustive.py',
                   cwd=repo, env=dict(os.environ, PYTHONPATH=repo, PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', PYTHONDONTWRITEBYTECODE='1'))
            if t.returncode: err = 'tests fail: ' + t.stdout[-300:]
        if not err:
            r = sh(f'bash {out}/demo.sh', cwd=repo)
            if not r.returncode: err = 'demo passes with the bug'
            last = (r.stderr.strip().split('\n') or [''])[-1][:150]
            sh('git checkout -q -- .', cwd=repo)
            r = sh(f'bash {out}/demo.sh', cwd=repo)
            if r.returncode: err = 'demo fails without the bug: ' + r.stderr[-300:]
        if err: print('BAD', id, err); bad += 1; continue
        dst = f'{V}/seeded/{id}'
        shutil.rmtree(dst, True); shutil.copytree(out, dst, ignore=shutil.ignore_patterns('__pycache__'))
        print('ok ', id, last)
    shutil.rmtree(work)
    sys.exit(bad > 0)
main()
