"""Mutation testing of the checks: small syntactic changes of a source file, each shown to the checks of that file as /repo.
usage: mutate.py OUT.json FILE [--jobs N] [--sample N] [--lines A-B]     (FILE relative to /repo)
Lists the mutants no check notices and the stable tests do not notice either."""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {'UnicodeSet': 'C01 C03 C04 C05 C02', 'Utrie2': 'C06 C07 C30', 'CPTrie': 'C08 C09 C21 C30', 'CharProps': 'C32 C10 C11 C12 C13', 'BidiProps': 'C32 C14 C15',
          'CaseProps': 'C32 C16 C17', 'Normalizer2': 'C18 C31', 'CharNames': 'C19 C20 C31', 'ICUDataFile': 'C22', 'LayoutProps': 'C21', 'Utilities': 'C23 C10',
          'HeaderToPtyhon': 'C27', 'ModuleBuilder': 'C28', 'ModuleInstaller': 'C28', 'UCDReader': 'C29'}
XML = 'CharacterData UCDProperties BinaryProperties CaseProperties DecompProperties BidiProperties IndicProperties'
CHECKS |= {m: 'C25 ' + CHECKS[m] for m in 'BidiProps CaseProps CPTrie Utrie2 Normalizer2 CharNames LayoutProps UnicodeSet'.split()}; CHECKS |= {'Characters': 'C25'}; CHECKS |= {m: 'C26' for m in XML.split()}
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in',
        ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Div: '*', ast.Mod: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.BitXor: '|', ast.LShift: '>>', ast.RShift: '<<',
        ast.And: 'or', ast.Or: 'and', ast.Pow: '*'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines: starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    out = []
    def put(n, new, what):
        a, b = pos(n)
        if raw[a:b].decode() != new: out.append((n.lineno, what, (raw[:a] + new.encode() + raw[b:]).decode()))
    seg = lambda n: raw[slice(*pos(n))].decode()
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): doc.add(n.body[0])
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): doc.add(n)
        if isinstance(n, ast.arg) and n.annotation:
            for m in ast.walk(n.annotation): doc.add(m)
        if isinstance(n, ast.FunctionDef) and n.returns:
            for m in ast.walk(n.returns): doc.add(m)
        if isinstance(n, ast.AnnAssign):
            for m in ast.walk(n.annotation): doc.add(m)
    skip = {m for d in doc for m in ast.walk(d)}
    for n in ast.walk(tree):
        if n in skip: continue
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                l, r = n.left if i == 0 else n.comparators[i - 1], n.comparators[i]
                if len(n.ops) == 1: put(n, f'({seg(l)}) {SWAP[type(op)]} ({seg(r)})', f'{ast.unparse(n)} -> {SWAP[type(op)]}')
                else:
                    a, b = pos(l)[1], pos(r)[0]
                    out.append((n.lineno, f'{ast.unparse(n)} op {i} -> {SWAP[type(op)]}', (raw[:a] + f' {SWAP[type(op)]} '.encode() + raw[b:]).decode()))
        elif isinstance(n, ast.BinOp) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            put(n, f'(({seg(n.left)}) {SWAP[type(n.op)]} ({seg(n.right)}))', f'{ast.unparse(n)} -> {SWAP[type(n.op)]}')
        elif isinstance(n, ast.AugAssign):
            put(n, f'{seg(n.target)} {SWAP[type(n.op)]}= {seg(n.value)}', f'{ast.unparse(n)} -> {SWAP[type(n.op)]}=')
        elif isinstance(n, ast.BoolOp):
            put(n, '(' + f' {SWAP[type(n.op)]} '.join('(' + seg(v) + ')' for v in n.values) + ')', f'{ast.unparse(n)} -> {SWAP[type(n.op)]}')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                put(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(' + seg(v) + ')' for v in rest) + ')', f'{ast.unparse(n)} without {ast.unparse(n.values[i])}')
        elif isinstance(n, ast.UnaryOp):
            put(n, f'({seg(n.operand)})', f'{ast.unparse(n)} -> operand')
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, str)) and not isinstance(n.value, bool):
            if isinstance(n.value, int):
                v = n.value
                new = {v + 1, v - 1}
                if v > 15: new |= {v >> 1, v & (v - 1), v ^ 1 << (v.bit_length() - 1)}
                for x in sorted(new - {v}): put(n, f'({x})' if x < 0 else str(x), f'{seg(n)} -> {x} in: {lines[n.lineno - 1].strip()}')
            elif n.value and n.lineno == n.end_lineno and seg(n)[0] in '"\'':
                put(n, seg(n)[:-1] + 'X' + seg(n)[-1], f'{seg(n)} + X in: {lines[n.lineno - 1].strip()}')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool): put(n, str(not n.value), f'{n.value} flipped in: {lines[n.lineno - 1].strip()}')
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            for x in ('True', 'False'):
                if not (isinstance(n, ast.While) and x == 'True'): put(n.test, x, f'{type(n).__name__} {ast.unparse(n.test)} -> {x}')
        if isinstance(n, ast.stmt) and isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Delete, ast.Return)) and n.lineno > 0:
            if isinstance(n, ast.Return): put(n, 'return None', f'{ast.unparse(n)} -> return None')
            else: put(n, 'pass', f'deleted: {ast.unparse(n)[:100]}')
    good, seen = [], set()
    for ln, what, text in out:
        if text in seen: continue
        seen.add(text)
        try: compile(text, 'x', 'exec')
        except SyntaxError: continue
        good.append((ln, what, text))
    return sorted(good, key=lambda t: t[0])


def main():
    out, file, *rest = sys.argv[1:]
    opt = dict(zip(rest[::2], rest[1::2]))
    name = os.path.basename(file)[:-3]
    checks = opt.get('--checks', CHECKS.get(name, '')).split()
    src = open(f'/repo/{file}').read()
    ms = mutants(src)
    if '--lines' in opt:
        a, b = map(int, opt['--lines'].split('-')); ms = [m for m in ms if a <= m[0] <= b]
    if '--sample' in opt and len(ms) > int(opt['--sample']): ms = sorted(random.Random(1).sample(ms, int(opt['--sample'])))
    baseline = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', json.load(open('/opt/vp/BASELINE.json')).get('passed', [])))
    print(f'{file}: {len(ms)} mutants, checks {checks}', flush=True)
    def one(m):
        ln, what, text = m
        top = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
        try:
            subprocess.run(['cp', '-a', '/repo', f'{top}/repo'], check=True)
            open(f'{top}/repo/{file}', 'w').write(text)
            os.makedirs(f'{top}/evidence')
            for q in checks:
                try:
                    r = subprocess.run(['unshare', '-rm', 'sh', '-c', f'mount --bind {top}/repo /repo && mount --bind {top}/evidence {V}/evidence && exec bash {V}/run.sh {q}'],
                                       capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=opt.get('--seed', '1'), VERIF_TIER='quick', VP_STOP='1'), timeout=400)
                except subprocess.TimeoutExpired: return m, f'TIMEOUT {q}'
                if r.returncode == 1 and f'VIOLATION property={q} ' in r.stdout: return m, f'killed {q}'
                if r.returncode: return m, f'ERROR {q} rc={r.returncode}: ' + (r.stdout + r.stderr)[-400:]
            r = subprocess.run(['unshare', '-rm', 'sh', '-c', f'mount --bind {top}/repo /repo && cd /repo && bash /opt/vp/test.sh {top}/t.json'], capture_output=True, text=True, timeout=300)
            try: j = json.load(open(f'{top}/t.json'))
            except Exception: return m, 'tests'
            p = set(j.get('passed', []))
            return m, 'SURVIVED' if len(p) >= 397 else 'tests'
        finally: shutil.rmtree(top, ignore_errors=True)
    t, res = time.time(), []
    with ThreadPoolExecutor(int(opt.get('--jobs', '7'))) as ex:
        for m, r in ex.map(one, ms):
            res.append((m[0], m[1], r))
            if not r.startswith('killed') and r != 'tests': print(f'{name}:{m[0]} {m[1]}: {r}', flush=True)
            json.dump(res, open(out, 'w'), indent=0)
    k = sum(r.startswith('killed') for *_, r in res)
    print(f'{file}: {len(res)} mutants, {k} killed by checks, {sum(r == "tests" for *_, r in res)} by tests only, {time.time() - t:.0f} s')


if __name__ == '__main__': main()
