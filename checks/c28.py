"""Building the data modules from ICU's generated C data."""
import contextlib, io, os, shutil, sys
from pathlib import Path
from hypothesis import strategies as st
from vp import builder, core, rnd
from vp.core import Violation
from vp.words import also

PID = 'C28'
RULE = ('A case is one generated C data file from which arrays, scalars and trie boundaries are extracted into a Python module, or one whole '
        'generated ICU source tree built and installed. Non-trivial: the file declares at least two arrays; distinct by text.')
ASSUME = ['Data files as ICU\'s tools write them: one declaration per statement, numbers in decimal or hexadecimal, 16 per line.',
          'FontDocTools (argument scanning, not installed here) is replaced by a stand-in.']

BUILDER = 'module_builder/ModuleBuilder.py'
def num(st): return also(st, st.one_of(st.integers(0, 9), st.integers(0, 0xffff), st.integers(0, 0xffffffff)), BUILDER, top=0xffffffff)


def render(v, hexa): return hex(v) if hexa and v > 9 else str(v)


def array(draw, st, lo=1, hi=70):
    n = draw(st.one_of(st.integers(lo, min(hi, 20)), st.sampled_from([lo, 15, 16, 17, 32, 33, hi]).filter(lambda k: lo <= k <= hi),
                       *[st.sampled_from([256, 257, 1000, 4096, 5001, 20000])] * (hi >= 50 and draw(st.integers(0, 3)) == 3)))
    if hi >= 50: n = draw(also(st, st.just(n), BUILDER, lo=lo, top=20000))
    if n <= 20: return draw(st.lists(num(st), min_size=n, max_size=n))
    base = draw(st.lists(num(st), min_size=1, max_size=8))
    out = [base[i % len(base)] + i for i in range(n)]
    # runs of one value, as tables have them where nothing is stored
    for _ in range(draw(st.integers(0, 2))):
        a, k, v = draw(st.integers(0, n - 1)), draw(st.sampled_from([1, 4, 15, 16, 33])), draw(st.sampled_from([0, 0, 1, 0xffff]))
        a = draw(st.sampled_from([a, 0, max(0, n - k)]))
        out[a:a + k] = [v] * len(out[a:a + k])
    return out


def array_text(ctype, name, values, hexa, multi, size=None):
    if multi:
        rows = [','.join(render(v, hexa) for v in values[i:i + 16]) for i in range(0, len(values), 16)]
        body = '\n' + ',\n'.join(rows) + '\n'
    else: body = ','.join(render(v, hexa) for v in values)
    return f'static const {ctype} {name}[{size or len(values)}]={{{body}}};\n'


TRIE = ('index_length', 'index_2_null_offset', 'data_null_offset', 'high_start', 'high_value_index')


def trie(draw, st): return [draw(num(st)) for _ in range(8)]


def trie_lines(name, t, pad, hexa):
    """index length, data length, index-2 null, data null, initial, error, high start, high value index"""
    r = [render(v, hexa) for v in t]
    last = 'NULL, 0, FALSE, FALSE, 0, NULL'
    return f',\n'.join(pad + x for x in [name, f'{name}+{r[0]}', 'NULL', *r[:2], *r[2:], last]) + '\n'


def trie_values(t): return dict(zip(TRIE, (t[0], t[2], t[3], t[6], t[7])))


def props_text(ctype, name, refs, index, t, hexa):
    return (f'static const {ctype} {name}={{\n  NULL,\n' + ''.join(f'  {r},\n' for r in refs) + '  {\n' + trie_lines(index, t, '    ', hexa) + '  },\n  { 2,2,0,0 }\n};\n')


def load(ctx):
    builder.modules()


def execute(path):
    text = open(path, encoding='utf-8').read()
    env = {}
    try: exec(compile(text, str(path), 'exec'), env)
    except Exception as e: raise Violation(f'{Path(path).name} does not load: {type(e).__name__}: {e}\n{core.short(text, 800)}')
    return {k: v for k, v in env.items() if not k.startswith('__')}


def compare(what, got, want):
    for n in want:
        if n not in got: raise Violation(f'{what}: {n} is missing')
        g = got[n]
        if (list(g) if isinstance(want[n], list) and isinstance(g, (list, tuple)) else g) != want[n]:
            if isinstance(want[n], list):
                if len(g) != len(want[n]): raise Violation(f'{what}: {n} has {len(g)} values, the source has {len(want[n])}')
                i = next(i for i in range(len(g)) if g[i] != want[n][i])
                raise Violation(f'{what}: {n}[{i}] is {g[i]!r}, the source says {want[n][i]!r}')
            raise Violation(f'{what}: {n} is {core.short(g)}, the source says {core.short(want[n])}')
    extra = [n for n in got if n not in want]
    if extra: raise Violation(f'{what}: {extra[:5]} are defined, but not asked for')


def data_file(draw, st):
    stems = ['props', 'Props', 'propsTrie', 'x', 'indexes', 'propsVectors', 'exceptions']
    n = draw(st.integers(1, 6))
    pool = draw(st.lists(st.tuples(st.sampled_from(['', '', 'u_', 'my', 'ucase_', 'count']), st.sampled_from(stems), st.sampled_from(['', '', '2', '_index', 'Trie_index', 'Columns'])).map(''.join),
                         min_size=n, max_size=n, unique=True))
    text, ask = ['// generated\n\n#ifdef INCLUDED_FROM_UCHAR_C\n\n' if draw(st.booleans()) else '/* by a tool */\n', 'static const UVersionInfo dataVersion={0xd,0,0,0};\n'], []
    for name in pool:
        kind = draw(st.sampled_from(['array', 'array', 'scalar', 'trie', 'props']))
        hexa = draw(st.booleans())
        if kind == 'array':
            v = array(draw, st)
            text.append(array_text(draw(st.sampled_from(['uint16_t', 'int32_t', 'uint32_t', 'uint8_t'])), name, v, hexa, draw(st.booleans()), draw(st.sampled_from([None, 'UBIDI_IX_TOP']))))
            ask.append((kind, name, {name: v}))
        elif kind == 'scalar':
            v = draw(num(st))
            text.append(f'static const int32_t {name}={render(v, hexa)};\n')
            ask.append((kind, name, {name: v}))
        else:
            t = trie(draw, st)
            prefix = name + '_t'
            if kind == 'trie': text.append(f'static const UTrie2 {name}={{\n' + trie_lines(name + '_ix', t, '    ', hexa) + '};\n')
            else: text.append(props_text('UFooProps', name, draw(st.lists(st.sampled_from(['a_indexes', 'b_exceptions', 'c2']), max_size=4)), name + '_ix', t, hexa))
            ask.append((kind, name, {f'{prefix}_{k}': v for k, v in trie_values(t).items()}))
    if draw(st.integers(0, 3)) == 0:
        # what was there before, kept in a comment at the end
        name = draw(st.sampled_from(pool))
        text.append('/* was:\n' + draw(st.sampled_from([array_text('uint16_t', name, [7, 7, 7], True, draw(st.booleans())), f'static const int32_t {name}=77;\n',
                                                          f'static const UTrie2 {name}={{\n' + trie_lines(name + '_ix', [7] * 8, '    ', True) + '};\n'])) + '*/\n')
    if draw(st.integers(0, 5)) == 5: text = [t.replace('\n', '\r\n') for t in text] if draw(st.booleans()) else ['// © 2016 and later: Unicode, Inc. and others.\n'] + text
    return draw(st.sampled_from(['a_data.h', 'ubidi_props_data.h'])), '\n'.join(text), draw(st.permutations(ask))


data_files = st.composite(lambda draw: data_file(draw, st))


def tree_files(draw, st):
    """A whole ICU source tree: {path: text}, and what the built modules must define."""
    files, want = {}, {}
    hexa = draw(st.booleans())
    def arrays(stem, names, prefix=''):
        w, t = {}, []
        for n in names:
            v = array(draw, st, hi=50); w[n] = v
            t.append(array_text('uint16_t', n, v, hexa, len(v) > 16))
        return w, t
    w, t = arrays('bidi', ['ubidi_props_indexes', 'ubidi_props_trieIndex', 'ubidi_props_mirrors', 'ubidi_props_jgArray', 'ubidi_props_jgArray2'])
    tr = trie(draw, st)
    files['source/common/ubidi_props_data.h'] = '\n'.join(t + [props_text('UBiDiProps', 'ubidi_props_singleton', list(w)[:1] + list(w)[2:], 'ubidi_props_trieIndex', tr, hexa)])
    want['BidiPropsData.py'] = {**w, **{'ubidi_props_trie_' + k: v for k, v in trie_values(tr).items()}}
    w, t = arrays('char', ['propsTrie_index', 'propsVectorsTrie_index', 'propsVectors', 'scriptExtensions'])
    t1, t2, cols = trie(draw, st), trie(draw, st), draw(st.integers(1, 9))
    mk = lambda n, x: f'static const UTrie2 {n}={{\n' + trie_lines(n + '_index', x, '    ', hexa) + '};\n'
    files['source/common/uchar_props_data.h'] = '\n'.join([t[0], mk('propsTrie', t1), t[1], mk('propsVectorsTrie', t2), t[2], f'static const int32_t countPropsVectors={len(w["propsVectors"])};',
                                                  f'static const int32_t propsVectorsColumns={cols};', t[3], 'static const int32_t indexes[UPROPS_INDEX_COUNT]={0x23,0x45,0,0};\n'])
    want['CharPropsData.py'] = {**w, 'propsVectorsColumns': cols, **{'propsTrie_' + k: v for k, v in trie_values(t1).items()}, **{'propsVectorsTrie_' + k: v for k, v in trie_values(t2).items()}}
    w, t = arrays('case', ['ucase_props_indexes', 'ucase_props_trieIndex', 'ucase_props_exceptions', 'ucase_props_unfold'])
    tr = trie(draw, st)
    files['source/common/ucase_props_data.h'] = '\n'.join(t + [props_text('UCaseProps', 'ucase_props_singleton', [n for n in w if 'trie' not in n], 'ucase_props_trieIndex', tr, hexa)])
    want['CasePropsData.py'] = {**w, **{'ucase_props_trie_' + k: v for k, v in trie_values(tr).items()}}
    mask = 'def U_MASK(x: int) -> int: return 1<<x'
    for path, more in (('common/uprops.h', []), ('common/ucase.h', ['#define UCASECONTEXT_INITIALIZER { NULL,  NULL, 0, 0, 0, 0 }']),
                       ('common/unicode/uchar.h', ['#define U_NO_NUMERIC_VALUE ((double)-123456789.)']), ('common/unicode/uscript.h', [])):
        stem = os.path.basename(path)[:-2].upper()
        v = draw(st.lists(st.integers(0, 300), min_size=1, max_size=5))
        w = {f'{stem}_{chr(65 + i)}': x for i, x in enumerate(v)}
        lines = [f'#ifndef __{stem}_H__', f'#define __{stem}_H__'] + [f'#define {k} {x}' for k, x in w.items()] + more
        if stem == 'UCHAR': lines.append('#define UCHAR_BIT U_MASK(UCHAR_A)'); w['UCHAR_BIT'] = 1 << v[0]
        e = draw(st.integers(1, 5))
        lines += ['typedef enum UThing {', *(f'    {stem}_E{i},' for i in range(e)), '} UThing;', '#endif']
        w |= {f'{stem}_E{i}': i for i in range(e)}
        files['source/' + path] = '\n'.join(lines)
        want[stem.lower() + '_h.py'] = w
    full, short = draw(st.sampled_from([('69.1', '69'), ('74.2', '74'), ('100.0.1', '100')]))
    files['source/common/unicode/uvernum.h'] = f'#define U_ICU_VERSION_MAJOR_NUM {short}\n#define U_ICU_VERSION "{full}"\n#define U_ICU_VERSION_SHORT "{short}"\n#define U_ICU_VERSION_SUFFIX _{short}\n'
    blob = draw(st.binary(max_size=60)) * draw(st.sampled_from([1, 1, 1, 100, 40_001]))
    files[f'build:data/out/icudt{short}l.dat'] = blob
    for other in draw(st.lists(st.sampled_from(['68l', '70l', '101l', short + 'b', short + 'e', '9l']), max_size=3, unique=True)): files[f'build:data/out/icudt{other}.dat'] = b'another version ' + other.encode()
    lic = draw(st.text('abcXYZ09 .©é’\r\n\t', max_size=40)) * draw(st.sampled_from([1, 1, 1, 500]))
    files['LICENSE'] = lic
    ver = draw(st.sampled_from(['13.0.0', '15.1.0', '9.0.0']))
    files['source/data/unidata/ppucd.txt'] = f'# ppucd\n\nucd;{ver}\n\nvalue;ea;N;Neutral\nvalue;ea;Na;Narrow\n'
    want['UnicodeVersion.py'] = {'unicodeVersion': ver}
    order = draw(st.permutations(['--sourceDir', '--buildDir', '--outputDir']))
    again = draw(st.lists(st.tuples(st.sampled_from(['out', 'UnicodeData']), st.sampled_from([*want, 'icudata.dat', 'LICENSE']), st.sampled_from(['same size', 'longer', 'empty', 'gone']),
                                    st.sampled_from([-10 ** 6, 10 ** 6])), max_size=6))
    return files, want, blob, lic, order, again


trees = st.composite(lambda draw: tree_files(draw, st))


def run(ctx):
    mods = builder.modules()
    B, I = mods['ModuleBuilder'], mods['ModuleInstaller']
    top = Path(core.scratch())
    src, out = top / 'src', top / 'out'
    os.makedirs(src / 'common', exist_ok=True)

    def one(f):
        name, text, ask = f
        (src / 'common' / name).write_text(text, newline='')
        want = {}
        b = B.ModuleBuilder(src, 'common/' + name, out, 'Data.py')
        for kind, n, w in ask:
            if kind == 'array': b.arrayToPython(n)
            elif kind == 'scalar': b.scalarToPython(n)
            elif kind == 'trie': b.trieValuesFromTrieDeclaration(n, n + '_t')
            else: b.trieValuesFromPropsDeclaration(n, n + '_t')
            want |= w
        b.writeFile()
        try: compare(name, execute(out / 'Data.py'), want)
        except Violation as e: raise Violation(f'{e}\n{core.short(text, 1500)}')
        ctx.case(text, len(ask) > 1, sample=text, label='data files')
    ctx.given('data files', data_files(), one, (200, 6000))
    ctx.many('many data files', lambda s: one(data_file(rnd.drawer(s), rnd)), (1000, 20000))

    def call(module, fn, argv, cwd):
        """Runs a tool's main function quietly; returns its exit code."""
        old, here = sys.argv, os.getcwd()
        sys.argv = argv
        if hasattr(module, 'argv'): module.argv = argv
        if hasattr(module, 'stderr'): module.stderr = io.StringIO()
        os.chdir(cwd)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): fn()
        except SystemExit as e: return e.code or 0
        finally:
            os.chdir(here); sys.argv = old
        return 0

    def tree(t):
        files, want, blob, lic, order, again = t
        root = top / 'tree'
        shutil.rmtree(root, ignore_errors=True)
        for p, x in files.items():
            p = root / 'build' / p[6:] if p.startswith('build:') else root / 'icu' / p
            os.makedirs(p.parent, exist_ok=True)
            p.write_bytes(x) if isinstance(x, bytes) else p.write_text(x, newline='')
        os.makedirs(root / 'UnicodeData' / 'Data')
        paths = {'--sourceDir': str(root / 'icu' / 'source'), '--buildDir': str(root / 'build'), '--outputDir': str(root / 'out')}
        for turn in range(2 if again else 1):
            code = call(B, B.build, ['ModuleBuilder.py'] + [x for o in order for x in (o, paths[o])], root)
            if code: raise Violation(f'building ended with {code}')
            call(I, I.install, ['ModuleInstaller.py', str(root / 'out')], root)
            for n, w in want.items():
                p = root / 'UnicodeData' / n
                if not p.exists(): raise Violation(f'{n} was not built and installed')
                got = execute(p)
                got.pop('U_MASK', None)
                compare(n, got, w)
            for n, x in (('icudata.dat', blob), ('LICENSE', lic.encode())):
                p = root / 'UnicodeData' / 'Data' / n
                if not p.exists() or p.read_bytes() != x: raise Violation(f'{n} was not copied as it is')
            if turn == 0:
                # what an earlier build or installation left behind, in any state
                for where, n, how, when in again:
                    p = root / where / ('Data' if where == 'UnicodeData' and not n.endswith('.py') else '.') / n
                    if not p.exists(): continue
                    x = p.read_bytes()
                    if how == 'gone': p.unlink(); continue
                    p.write_bytes({'same size': bytes(b ^ 1 for b in x), 'longer': x + b'\nleft = 1\n', 'empty': b''}[how])
                    os.utime(p, (p.stat().st_mtime + when,) * 2)
        names = sorted(os.listdir(root / 'UnicodeData'))
        expected = sorted([*want, 'UCDTypeDictionaries.py', 'Data'])
        if names != expected: raise Violation(f'installed {names}, expected {expected}')
        for p, x in files.items():
            p = root / 'build' / p[6:] if p.startswith('build:') else root / 'icu' / p
            if p.read_bytes() != (x if isinstance(x, bytes) else x.encode()): raise Violation(f'{p} was changed by the build')
        shutil.rmtree(root)
        ctx.case((sorted(files.items(), key=lambda i: i[0]), order), True, sample=sorted(files), label='source trees')
    ctx.given('source trees', trees(), tree, (40, 600))
    ctx.many('many source trees', lambda s: tree(tree_files(rnd.drawer(s), rnd)), (60, 1500))

    options = ['--sourceDir', '--buildDir', '--outputDir']
    def arguments(a):
        root = top / 'args'
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        code = call(B, B.build, ['ModuleBuilder.py', *a], root)
        if not code: raise Violation(f'arguments {a} were accepted')
        left = [str(p) for p in root.rglob('*')]
        if left: raise Violation(f'arguments {a} were refused, but {left[:3]} were written')
        ctx.case(('args', a), len(a) > 1, sample=a, label='refused arguments')
    @st.composite
    def bad(draw):
        kind = draw(st.sampled_from(['missing', 'double', 'unknown', 'no value']))
        k = draw(st.permutations(options))
        if kind == 'missing': k = k[:draw(st.integers(0, 2))]
        elif kind == 'double': k = k[:draw(st.integers(1, 3))]; k = list(k) + [draw(st.sampled_from(k))]
        a = [x for o in k for x in (o, 'dir' + str(len(o)))]
        if kind == 'unknown': i = 2 * draw(st.integers(0, 3)); a[i:i] = [draw(st.sampled_from(['--verbose', '-h', '--outputdir', 'dir', '--source']))]
        if kind == 'no value': a = a[:-1]
        return a
    ctx.given('refused arguments', bad(), arguments, (150, 1500))
