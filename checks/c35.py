"""The whole way from ICU's sources to answers: build, install, import, look up."""
import importlib, json, os, random, shutil, sys
from pathlib import Path
from hypothesis import strategies as st
from vp import builder, core, env, icu, icudata, unames
from vp.core import Violation
from checks import c08, c21, c24, c28, c29, c32

PID = 'C35'
RULE = ("A case is one generated ICU source and build tree (bidi, case and character property data as C sources, the four headers with the constants of "
        'Unicode 13, ppucd.txt, a data package with generated names and layout data), built and installed into a copy of the package, which is then '
        'imported and asked. Non-trivial: at least 3 code points have data of each kind; distinct by data.')
ASSUME = ["The generated data are in the formats of ICU 69, as C32's, C19's and C21's are; sources are laid out as ICU's tools write them, as C28's are.",
          'FontDocTools (argument scanning, not installed here) is replaced by a stand-in.']


def load(ctx):
    global Headers, ROWS
    builder.modules()
    all_ = json.load(open(f'{core.VERIF}/oracle/constants.json'))
    Headers = {m: {k: v for k, v in all_[m].items() if isinstance(v, int)} for m in ('uchar_h', 'uscript_h', 'uprops_h', 'ucase_h')}
    sys.dont_write_bytecode = True
    L = icu.lib()
    name = lambda p, v, k: (lambda b: b.decode() if b else None)(L.u_getPropertyValueName_74(p, v, k))
    ROWS = [(d, v, f'value;{c29.KINDS[d]};{name(p, v, 0)};{name(p, v, 1)}', c24.expected(m, p, v, f))
            for m, d, p, n, f in c24.TABLES if m == 'UCDTypeDictionaries' for v in range(n)]


def c_source(r, v, ctype, tries, singletons=()):
    """C source text of the variables: arrays, scalars, tries {declared name: (variable prefix, index array)}; tries among singletons are inside a struct of their own."""
    hexa, text, rest = r.random() < .5, [], dict(v)
    parts = []
    for name, (prefix, index) in tries.items():
        t = [rest.pop(f'{prefix}_{k}') for k in c28.TRIE]
        t = [t[0], r.randrange(0x10000), t[1], t[2], 0, 0, t[3], t[4]]
        if name in singletons: parts.append((2, c28.props_text('UFooProps', name, [n for n in v if isinstance(v[n], list) and n != index], index, t, hexa)))
        else: parts.append((1, f'static const UTrie2 {name}={{\n' + c28.trie_lines(index, t, '    ', hexa) + '};\n'))
    for n, x in rest.items():
        parts.append((1 if r.random() < .5 else 0, c28.array_text(ctype, n, x or [0], hexa, len(x) > 16 or r.random() < .3) if isinstance(x, list) else f'static const int32_t {n}={c28.render(x, hexa)};\n'))
    r.shuffle(parts)
    parts.sort(key=lambda p: p[0])
    head = r.choice(['// generated\n', '/* by a tool */\n', '// © 2016 and later: Unicode, Inc. and others.\n#ifdef INCLUDED_FROM_UCHAR_C\n\n'])
    return head + 'static const UVersionInfo dataVersion={0xd,0,0,0};\n\n' + '\n'.join(p for _, p in parts) + '\n#endif\n'


def c_header(r, stem, constants):
    """A header with the constants, as macros or enumerators, in an order of its own."""
    names = list(constants)
    r.shuffle(names)
    out = [f'#ifndef __{stem}_H__', f'#define __{stem}_H__', '']
    while names:
        some = [names.pop() for _ in range(min(len(names), r.choice([1, 3, 10, 40])))]
        if r.random() < .5:
            some.sort(key=lambda n: constants[n])
            rows, last = [], None
            for n in some:
                v = constants[n]
                implied = 0 if last is None else last + 1
                rows.append(f'    {n}' + ('' if v == implied and r.random() < .7 else f' = {v if r.random() < .5 or v < 0 else hex(v)}') + ',' + r.choice(['', '', ' /**< a value */', ' // a value']))
                last = v
            out += [f'typedef enum U{stem}{len(names)} {{', *rows, f'}} U{stem}{len(names)};', '']
        else: out += [f'#define {n} {constants[n] if constants[n] >= 0 and r.random() < .5 or constants[n] < 0 else hex(constants[n])}' + r.choice(['', '', ' /* a value */']) for n in some] + ['']
    return '\n'.join(out + ['#endif', ''])


MODULES = ['BidiPropsData', 'CharPropsData', 'CasePropsData', 'uprops_h', 'ucase_h', 'uchar_h', 'uscript_h', 'UCDTypeDictionaries', 'UnicodeVersion']


def run(ctx):
    mods = builder.modules()
    B, I = mods['ModuleBuilder'], mods['ModuleInstaller']
    top = Path(core.scratch()) / 'trees'
    state = dict(n=0)

    def call(module, fn, argv, cwd):
        import contextlib, io
        old, here = sys.argv, os.getcwd()
        sys.argv = argv
        if hasattr(module, 'argv'): module.argv = argv
        os.chdir(cwd)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): fn()
        except SystemExit as e:
            if e.code: raise Violation(f'{argv[0]} ended with {e.code}')
        finally:
            os.chdir(here); sys.argv = old

    def one(t):
        bidi, (case, gap), char, names, layout, seed = t
        r = random.Random(seed)
        case_v = c32.case_values(case, gap)
        if len(case_v['ucase_props_exceptions']) >= 0xfff: return
        state['n'] += 1
        root = top / str(state['n'])
        src = root / 'icu' / 'source'
        short = r.choice(['69', '74', '100'])
        rows = [x for x in ROWS if r.random() < .3]
        version = r.choice(['13.0.0', '14.0.0', '15.1.0'])
        files = {'common/ubidi_props_data.h': c_source(r, c32.bidi_values(bidi), 'uint16_t', {'ubidi_props_singleton': ('ubidi_props_trie', 'ubidi_props_trieIndex')}, ['ubidi_props_singleton']),
                 'common/ucase_props_data.h': c_source(r, case_v, 'uint16_t', {'ucase_props_singleton': ('ucase_props_trie', 'ucase_props_trieIndex')}, ['ucase_props_singleton']),
                 'common/uchar_props_data.h': c_source(r, c32.char_values(char), 'uint32_t', {'propsTrie': ('propsTrie', 'propsTrie_index'), 'propsVectorsTrie': ('propsVectorsTrie', 'propsVectorsTrie_index')}),
                 'common/unicode/uvernum.h': f'#define U_ICU_VERSION_MAJOR_NUM {short}\n#define U_ICU_VERSION "{short}.1"\n#define U_ICU_VERSION_SHORT "{short}"\n',
                 'data/unidata/ppucd.txt': '\n'.join([f'ucd;{version}', ''] + [x[2] for x in rows]) + '\n', '../LICENSE': 'a licence\n'}
        for m, path in (('uprops_h', 'common/uprops.h'), ('ucase_h', 'common/ucase.h'), ('uchar_h', 'common/unicode/uchar.h'), ('uscript_h', 'common/unicode/uscript.h')):
            files[path] = c_header(r, m[:-2].upper(), Headers[m])
        items = {'ulayout.icu': c21.item(layout, 12, r.randrange(40)), 'unames.icu': names.item()}
        try:
            for p, x in files.items():
                os.makedirs((src / p).parent, exist_ok=True)
                (src / p).write_text(x)
            out = root / 'build' / 'data' / 'out'
            os.makedirs(out)
            (out / f'icudt{short}l.dat').write_bytes(icudata.pack(items, prefix=f'icudt{short}l'))
            for other in r.sample(['68l', '70l', '101l', short + 'b'], r.randrange(3)): (out / f'icudt{other}.dat').write_bytes(b'another version')
            shutil.copytree(os.path.join(core.REPO, 'UnicodeData'), root / 'UnicodeData', ignore=shutil.ignore_patterns('__pycache__', 'Norm2NFCData.py'))
            os.makedirs(root / 'UnicodeData' / 'Data', exist_ok=True)
            call(B, B.build, ['ModuleBuilder.py', '--sourceDir', str(src), '--buildDir', str(root / 'build'), '--outputDir', str(root / 'out')], root)
            # an older version is installed there, of any size and age
            for m in sorted(MODULES):
                p, n = root / 'UnicodeData' / (m + '.py'), (root / 'out' / (m + '.py')).stat()
                if r.random() < .5: continue
                p.write_text('raise ImportError("an older version")\n' + r.choice(['', '#' * 3, '#' * n.st_size]))
                os.utime(p, (n.st_mtime + r.choice([-1000, 0, 1000]),) * 2)
            for f in ('icudata.dat', 'LICENSE'):
                if r.random() < .5: (root / 'UnicodeData' / 'Data' / f).write_bytes(b'older' * r.choice([0, 1, 100000]))
            call(I, I.install, ['ModuleInstaller.py', str(root / 'out')], root)
            look(root, t, rows, version)
        finally:
            for m in [m for m in sys.modules if m.split('.')[0] == 'UnicodeData']: del sys.modules[m]
            if str(root) in sys.path: sys.path.remove(str(root))
            shutil.rmtree(root, ignore_errors=True)
        ctx.case(repr((bidi, case, gap, char, repr(names), seed)), min(len(bidi[0]), len(case), len(char['chars']), len(names.fields)) >= 3,
                 sample=f'{len(bidi[0])} bidi, {len(case)} case, {len(char["chars"])} character entries, {len(names.fields)} names', label='trees')

    def look(root, t, rows, version):
        bidi, (case, gap), char, names, layout, seed = t
        for m in [m for m in sys.modules if m.split('.')[0] == 'UnicodeData']: del sys.modules[m]
        sys.path.insert(0, str(root))
        importlib.invalidate_caches()
        def mod(n):
            try: return importlib.import_module('UnicodeData.' + n)
            except Exception as e: raise Violation(f'after the build, {n} cannot be imported: {type(e).__name__}: {e}')
        where = mod('BidiProps').__file__
        assert where.startswith(str(root)), where
        c32.check_bidi(ctx, mod('BidiProps'), bidi)
        c32.check_case(ctx, mod('CaseProps'), case)
        c32.check_char(ctx, mod('CharProps'), char)
        for m, want in Headers.items():
            M = mod(m)
            for n, v in want.items():
                if getattr(M, n, None) != v: raise Violation(f'{m}.{n} is {getattr(M, n, None)!r}, the header says {v}')
        if mod('UnicodeVersion').unicodeVersion != version: raise Violation(f'unicodeVersion is {mod("UnicodeVersion").unicodeVersion!r}, the UCD file says {version}')
        D = mod('UCDTypeDictionaries')
        for d, v, line, want in rows:
            if getattr(D, d, {}).get(v) != want: raise Violation(f'{d}[{v}] is {getattr(D, d, {}).get(v)!r}, the UCD file says {line}')
        N = mod('CharNames').CharNames
        for c in c32.around([*names.fields, *(x for s, e, _ in names.algs for x in (s, e))]):
            for ch in (0, 3):
                if N.getCharName(c, ch) != names.name(c, ch): raise Violation(f'getCharName({c:#x}, {ch}) is {N.getCharName(c, ch)!r}, the file says {names.name(c, ch)!r}')
        import bisect
        X = mod('LayoutProps')
        for (f, trie, _), s in zip(c21.PROPS, layout):
            starts = [q[0] for q in s['runs']]
            for c in c08.points(s['runs'], [0x41, 0x915]):
                if c > 0x10ffff: continue
                w = s['runs'][bisect.bisect_right(starts, c) - 1][1]
                if getattr(X, f)(c) != w: raise Violation(f'{f}({c:#x}) is {getattr(X, f)(c)}, the file says {w}')
                ctx.count()

    seeds = st.integers(0, 2 ** 32)
    ctx.given('trees', st.tuples(c32.bidis(), st.tuples(c32.cases(), st.sampled_from([0, 1, 300])), c32.chars(), unames.specs(), st.tuples(c08.specs(), c08.specs(), c08.specs()), seeds), one, (25, 400))

    small = st.tuples(unames.specs(), st.tuples(c08.specs(), c08.specs(), c08.specs()), seeds)
    def large(t):
        names, layout, seed = t
        b, c = c32.wide(seed)
        one((b, c32.wide_case(seed ^ 1), c, names, layout, seed))
        ctx.label('data of real size')
    ctx.given('trees of real size', small, large, (10, 150))
