"""Runs the checks against planted bugs: for each seeded/<id>, applies the patch to a copy of /repo which a private mount namespace shows
as /repo, and runs the quick check of its property (or also of the properties named with --also). Appends to tools/seedresults.json.
usage: tryseeds.py [--seed N] [--jobs N] [--also C01,C02] [id ...]  (no id: those without a result; 'all': all of them)"""
import glob, json, os, subprocess, sys, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = f'{V}/tools/seedresults.json'
res = json.load(open(RES)) if os.path.exists(RES) else {}
args, opt = sys.argv[1:], {'--seed': '1', '--jobs': '4', '--also': ''}
while args and args[0] in opt: opt[args[0]] = args[1]; args = args[2:]
also = [q for q in opt['--also'].split(',') if q]
every = [os.path.basename(d) for d in sorted(glob.glob(f'{V}/seeded/*'))]
ids = every if args == ['all'] else args or [i for i in every if i not in res]


def one(id):
    p = json.load(open(f'{V}/seeded/{id}/meta.json'))['property']
    top = tempfile.mkdtemp(prefix='try-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', f'{top}/repo'], check=True)
        subprocess.run(['git', '-C', f'{top}/repo', 'apply', f'{V}/seeded/{id}/patch.diff'], check=True)
        os.makedirs(f'{top}/evidence')
        out = {}
        for q in [p] + also:
            t = time.time()
            r = subprocess.run(['unshare', '-rm', 'sh', '-c', f'mount --bind {top}/repo /repo && mount --bind {top}/evidence {V}/evidence && exec bash {V}/run.sh {q}'],
                               capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=opt['--seed'], VERIF_TIER='quick'))
            out[q] = hit = r.returncode == 1 and f'VIOLATION property={q} ' in r.stdout
            print(f'{"caught" if hit else "MISSED"} {id} by {q} rc={r.returncode} {time.time() - t:.0f}s', '' if hit else (r.stdout + r.stderr)[-300:], flush=True)
        e = dict(property=p, caught=out[p])
        if any(out[q] for q in also): e['also'] = [q for q in also if out[q]]
        return id, e
    finally: shutil.rmtree(top)


with ThreadPoolExecutor(int(opt['--jobs'])) as ex:
    for id, e in ex.map(one, ids):
        if opt['--seed'] == '1': res[id] = e
json.dump(res, open(RES, 'w'), indent=0, sort_keys=True)
