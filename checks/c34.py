"""Importing the modules of the package in any order."""
import hashlib, importlib, inspect, json, os, pickle, random, sys, warnings
from hypothesis import strategies as st
from vp import core, icudata
from vp.core import Violation

PID = 'C34'
RULE = ('A case is one sequence of imports of modules of the package, in a fresh process, in a mix of import forms; the contents of every module and '
        'its answers for some code points are taken after each import and once more at the end, and compared with those of the module imported alone. '
        'Non-trivial: at least 3 modules; distinct by sequence.')
ASSUME = ['Contents are numbers, strings, containers of them, and the names of functions and classes; what is private (leading underscore) is left out.',
          'Constants of one name in several modules are those listed in oracle/shared_constants.json (a new name may mean something else elsewhere).',
          'The data file is made of the installed ICU\'s items.']
FORMS = ['import', 'from', 'star', 'dunder']
POINTS = [0x41, 0x5f0, 0xdf, 0x1c5, 0x2167, 0x9be, 0xac01, 0xd800, 0xfb01, 0x1e921, 0x1f600, 0x2f800, 0xe0001, 0x10ffff, 0x110000]


VOLATILE = {}           # what a module fills in while it is used: caches


def load(ctx):
    global NAMES
    icudata.overlay(icudata.pack(dict(icudata.system_items())))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        # what the package itself needs from elsewhere is loaded once
        for m in ('pkg_resources', 'fontTools.misc.sstruct', 'csv', 'heapq', 'unicodedata', 'zipfile', 'urllib.request', 'xml.etree.ElementTree'):
            try: importlib.import_module(m)
            except ImportError: pass
    root = os.path.join(core.REPO, 'UnicodeData')
    NAMES = sorted(f[:-3] for f in os.listdir(root) if f.endswith('.py') and f != '__init__.py')
    for n in [n for n in sys.modules if n.split('.')[0] == 'UnicodeData']: del sys.modules[n]


def flat(v):
    """The value without anything that depends on where objects lie, or None if it is not plain."""
    if isinstance(v, (bool, int, float, str, bytes, type(None))): return repr(v)
    if isinstance(v, range): return repr(v)
    if isinstance(v, dict): return 'dict', [(flat(k), flat(x)) for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return 'seq', repr(v) if all(type(x) in (int, str) for x in v) else [flat(x) for x in v]
    if inspect.isfunction(v) or inspect.isclass(v): return 'def', v.__module__, v.__qualname__
    return None


def contents(name):
    """{what: digest} of a module, as it is now."""
    M = sys.modules['UnicodeData.' + name]
    out = {}
    volatile = VOLATILE.get(name, ())
    for k, v in sorted(vars(M).items()):
        if k.startswith('_') or inspect.ismodule(v): continue
        f = flat(v)
        if k in volatile: continue
        if f is not None: out[k] = hashlib.sha1(repr(f).encode()).hexdigest()[:16]
        if inspect.isfunction(v) and v.__module__ == M.__name__ and list(inspect.signature(v).parameters) == ['c']:
            out[k + '()'] = [answer(v, c) for c in POINTS]
        if inspect.isclass(v) and v.__module__ == M.__name__:
            for a, x in sorted(vars(v).items()):
                if a.startswith('_') or f'{k}.{a}' in volatile: continue
                f = flat(x)
                if f is not None: out[f'{k}.{a}'] = hashlib.sha1(repr(f).encode()).hexdigest()[:16]
    if name == 'Normalizer2':
        for t in ('nfcTrie', 'nfkcTrie', 'nfkc_cfTrie'): out[t + ' answers'] = [answer(f, c) for c in POINTS for f in (getattr(M, t).getDecomposition, getattr(M, t).getRawDecomposition)]
    if name == 'CharNames': out['names'] = [answer(M.CharNames.getCharName, c) for c in POINTS] + [next(iter(M.CharNames.nameIterator()))]
    if name == 'UnicodeSet': out['sets'] = str(M.UnicodeSet(range(3, 9)).add(12).complement())
    return out


EMPTY = [hashlib.sha1(repr(flat(v)).encode()).hexdigest()[:16] for v in ({}, [], (), None)]


def answer(f, c):
    try: return repr(f(c))
    except Exception as e: return 'raises ' + type(e).__name__


def imported(form, name):
    full = 'UnicodeData.' + name
    if form == 'import': importlib.import_module(full)
    elif form == 'dunder': __import__(full)
    elif form == 'from': exec(f'from UnicodeData import {name}', {})
    else: exec(f'from {full} import *', {})


def fresh(sequence):
    """[(step, module, contents)] of the imports, in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            core.arm()
            warnings.simplefilter('ignore')
            out = []
            for i, (form, name) in enumerate(sequence):
                try: imported(form, name)
                except Exception as e:
                    out.append((i, name, f'{type(e).__name__}: {str(e)[:200]}')); break
                out.append((i, name, contents(name)))
            else:
                for _, name in sequence: out.append((len(sequence), name, contents(name)))
            with os.fdopen(w, 'wb') as f: pickle.dump(out, f)
        except core.Hang: code = 7
        except BaseException: code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f: data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.waitstatus_to_exitcode(status) == 7: raise core.Hang(core.CPU_LIMIT)
    if status or not data: raise Violation('the importing process died')
    return pickle.loads(data)


def run(ctx):
    alone = {}
    def first(name):
        if name not in alone:
            got = fresh([('import', name)])
            if isinstance(got[-1][2], str): raise Violation(f'importing {name} alone fails: {got[-1][2]}')
            once, twice = got[0][2], got[-1][2]
            for k in sorted({*once, *twice}):
                if once.get(k) != twice.get(k) and isinstance(once.get(k, twice.get(k)), list): raise Violation(f'{name}.{k} answers differently the second time')
            # what is empty at first, or changes by use, is a cache and not compared
            VOLATILE[name] = {k for k in {*once, *twice} if once.get(k) != twice.get(k) or once[k] in EMPTY}
            alone[name] = {k: d for k, d in once.items() if k not in VOLATILE[name]}
        return alone[name]

    def each():
        for n in NAMES:
            ctx.current = n
            first(n)
            ctx.case(('alone', n), False, sample=n, label='alone')
        # a number that several modules have under one name
        shared = {}
        for form, n in [('import', n) for n in NAMES]:
            for k, d in alone[n].items():
                if isinstance(d, str) and k.isupper() and k not in ('names', 'sets'): shared.setdefault(k, {}).setdefault(d, []).append(n)
        known = set(json.load(open(os.path.join(os.path.dirname(__file__), '..', 'oracle', 'shared_constants.json'))))
        if os.environ.get('VERIF_WRITE_SHARED'): print(json.dumps(sorted(k for k, d in shared.items() if sum(map(len, d.values())) > 1)))
        for k, d in shared.items():
            if k not in known: continue
            ctx.current = k
            if len(d) > 1: raise Violation(f'{k} is different in {" and ".join(m[0] for m in d.values())}')
            ctx.count()
        ctx.label('constants compared', len(known))
    ctx.part('alone', each)

    def check(sequence):
        ctx.current = sequence
        for i, name, what in fresh(sequence):
            when = f'after importing {[n for _, n in sequence[:i + 1]]}'
            if isinstance(what, str): raise Violation(f'importing {name} as {sequence[i][0]} fails {when}: {what}')
            want = first(name)
            what = {k: d for k, d in what.items() if k not in VOLATILE[name]}
            if what != want:
                k = next(k for k in sorted({*what, *want}) if what.get(k) != want.get(k))
                raise Violation(f'{name}.{k} {when} is not what it is when {name} is imported alone: {core.short(what.get(k))} / {core.short(want.get(k))}')
        ctx.case(sequence, len(sequence) > 2, sample=[f'{f} {n}' for f, n in sequence], label=f'starts with {sequence[0][1]}')
    heavy = [n for n in NAMES if n in ('CharNames', 'Normalizer2', 'LayoutProps', 'ICUDataFile', 'CharProps', 'CaseProps', 'BidiProps', 'CPTrie', 'Utrie2', 'Utilities', 'CharacterData')]
    def sequence(seed):
        r = random.Random(seed)
        k = r.choice([2, 3, 4, 6, 10, len(NAMES)])
        some = r.sample(NAMES, min(k, len(NAMES))) if r.random() < .6 else r.sample(heavy, min(k, len(heavy)))
        return [(r.choice(FORMS), n) for n in some]
    ctx.many('orders', lambda s: check(sequence(s)), (50, 1500))
    def orders(draw):
        return [(draw(st.sampled_from(FORMS)), n) for n in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=8, unique=True))]
    ctx.given('short orders', st.composite(orders)(), check, (30, 600))
