"""Translating ICU's C headers to Python."""
import os, re, subprocess, zlib
from pathlib import Path
from hypothesis import strategies as st
from vp import builder, core, rnd
from vp.core import Violation
from vp.words import also

PID = 'C27'
RULE = ('A case is one generated C header (or one of ICU\'s own) translated to Python, its module executed and every constant compared. '
        'Non-trivial: at least two constants of the header are defined, one of them by an enumeration or an expression.')
ASSUME = ['Headers in ICU\'s style: one directive or enumerator per line, comments on their own lines or ending a line, integer or string constants, '
          'names already defined; what is between #if and its #endif (other than the include guard), nested ones included, is left out.',
          "For ICU's own headers the oracle is the C compiler, with the conditional parts hidden."]

PREFIX = ['U', 'UX_', 'U_GC_', 'USCRIPT_', '_INNER_', 'u']


def header(draw, st):
    """(file name, text, {constant: value} in order, names to ignore)."""
    words = st.text('abcdefgh ,;(){}=#$"\'<>0123456789', max_size=25)
    base = draw(st.sampled_from(['uchar.h', 'uprops.h', 'ucase.h', 'ux9.h']))
    guard = draw(st.sampled_from(['__%s__', '%s', '__%s'])) % base.replace('.', '_').upper()
    out, known, count = [], {}, [0]
    ignore = []
    def fresh():
        count[0] += 1
        return draw(st.sampled_from(PREFIX)) + draw(st.sampled_from(['A', 'LONG_NAME', 'x9', 'B_', 'IF', 'ENUM', 'DEFINE'])) + str(count[0])
    def indent(): return draw(st.sampled_from(['', '    ', '  ', '\t']))
    def safe(s): return s.replace('*/', '')
    def comment(s):
        k = draw(st.integers(0, 4))
        if k == 0: out.append(indent() + '// ' + s)
        elif k == 1: out.append(indent() + '/* ' + safe(s) + ' */')
        elif k == 2: out.append(indent() + '/** ' + safe(s) + ' */')
        else:
            inner = draw(st.lists(st.sampled_from(['#define NOT_THIS 7', 'enum Not {', '};', 'AND_NOT_THIS = 3,', '#endif', '#if 1', '@stable ICU 2.0', '']), max_size=4))
            out.append(indent() + '/*' + '*' * (k - 3) + (' ' + safe(s) if draw(st.booleans()) else ''))
            for l in inner: out.append(indent() + (' * ' if k == 3 else '') + l)
            out.append(indent() + draw(st.sampled_from([' */', '*/', ' * ... */'])))
    def trailing():
        k = draw(st.integers(0, 5))
        s = draw(words)
        return ['', '', ' /* x' + safe(s) + '*/', ' /**< ' + safe(s) + ' */', ' // ' + s, '  //' + s.strip()][k] if k < 5 or s.strip() else ' // c'
    def number():
        v = draw(also(st, st.one_of(st.integers(0, 40), st.integers(0, 0x7fffffff)), 'module_builder/HeaderToPtyhon.py', top=0x7fffffff))
        return draw(st.sampled_from([(str(v), v), (hex(v), v), ('0x%X' % v, v), ('-%d' % v, -v), ('(%d)' % v, v), ('(-%d)' % v, -v)]))
    def expression(local):
        pool = {**known, **local} if local is not None else known
        ints = [n for n in pool if isinstance(pool[n], int)] if local is None or draw(st.integers(0, 3)) == 0 else list(local)
        k = draw(st.integers(0, 6))
        if k <= 2 or not ints:
            if draw(st.integers(0, 3)) == 0:
                s = draw(st.integers(0, 24)); m = draw(st.integers(1, 9))
                return draw(st.sampled_from([(f'{m}<<{s}', m << s), (f'({m} << {s})', m << s), (f'(({m}<<{s})-1)', (m << s) - 1), (f'({m}|{s})', m | s)]))
            return number()
        a = draw(st.sampled_from(ints)); b = draw(st.sampled_from(ints)); n = draw(st.integers(0, 9))
        x, y = pool[a], pool[b]
        return draw(st.sampled_from([(a, x), (f'{a}+{n}', x + n), (f'({a} - {n})', x - n), (f'({a}|{b})', x | y), (f'{a} | {b}', x | y), (f'({a}&{n})', x & n)]))
    def define():
        n = fresh()
        if local_masks and draw(st.integers(0, 4)) == 0:
            a = draw(st.sampled_from(local_masks))
            text, v = f'U_MASK({a})', 1 << known[a]
        elif draw(st.integers(0, 7)) == 0:
            v = ''.join(draw(st.lists(st.sampled_from(['a', 'XYZ', '09', '_.-', ' ', ' ', 'http://', '//', '/* no */', "it's", '#define X 1', '}', '= 4,', '\\', '"']), max_size=6)))
            text = '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
        else: text, v = expression(None)
        gap = draw(st.sampled_from([' ', '  ', '   ', '\t']))
        split = draw(st.integers(0, 11))
        if split == 0: out.append(f'#define {n} \\'); out.append(indent() + text + trailing())
        elif split == 1 and not text.startswith('"'):
            # continued over several lines
            parts = re.findall(r'\w+|<<|[^\w\s]', text)
            rows = [[]]
            for q in parts: (rows.append([q]) if draw(st.booleans()) else rows[-1].append(q))
            rows = [' '.join(r) for r in rows if r]
            more = lambda: draw(st.sampled_from([' \\', '\\', '   \\']))
            out.append(f'#define {n}{gap}{rows[0]}' + (more() if len(rows) > 1 else trailing()))
            for i, r in enumerate(rows[1:], 2): out.append(indent() + r + (more() if i < len(rows) else trailing()))
        else: out.append(f'#define {n}{gap}{text}{trailing()}')
        if draw(st.integers(0, 9)) == 0:
            ignore.append(n)
            if draw(st.booleans()):       # a name that goes on from an ignored one, or that one goes on from
                more = draw(st.sampled_from([n + '_MORE', n + '_2', n[:-1] + '_', 'X' + n]))
                if more not in known and more not in ignore:
                    v = draw(st.integers(0, 99)); out.append(f'#define {more} {v}'); known[more] = v
        else:
            known[n] = v
            if isinstance(v, int) and 0 <= v < 31: local_masks.append(n)
    def hidden(kind, depth=0):
        out.append(draw(st.sampled_from(['#ifndef U_HIDE_DEPRECATED_API', '#ifdef U_IN_DOXYGEN', '#if U_SHOW_SOMETHING', '#if !defined(NOT_ME) && 0',
                                         '#ifndef ' + guard + '_EXTRA', '#ifndef ' + guard.strip('_') + '_X__', '#ifndef NO_' + guard.strip('_'), '#ifdef ' + guard, '#if defined(' + guard + ')'])))
        for _ in range(draw(st.integers(0, 3))):
            k = draw(st.integers(0, 3 if depth < 2 else 2))
            if k == 3: hidden(kind, depth + 1)
            elif k == 0: comment(draw(words))
            elif k == 1 and kind == 'top': out.append(f'#define {fresh()} 77')
            elif k == 1: out.append(f'    {fresh()} = 99,')
            else: out.append(draw(st.sampled_from(['#else', '', '    ', '#undef X'])))
        out.append(draw(st.sampled_from(['#endif', '#endif /* U_HIDE */', '#endif  // U_HIDE'])))
    def enum():
        tag = draw(st.sampled_from(['', ' UThing', ' UThing']))
        td = draw(st.booleans())
        head = ('typedef ' if td else '') + 'enum' + tag
        out.append(indent() + (head + (' {' if not tag else draw(st.sampled_from([' {', '{']))) if draw(st.booleans()) else head + '\n' + '{'))
        nxt, local = 0, {}
        m = draw(st.integers(1, 7))
        for i in range(m):
            for _ in range(draw(st.integers(0, 1))): comment(draw(words))
            if draw(st.integers(0, 7)) == 0: hidden('enum')
            n = fresh()
            if draw(st.booleans()):
                text, v = expression(local)
                eq = draw(st.sampled_from(['=', ' = ', ' =', '= ']))
            else: text, v, eq = '', nxt, ''
            comma = ',' if i < m - 1 or draw(st.booleans()) else ''
            out.append(indent() + n + eq + text + comma + trailing())
            local[n] = known[n] = v
            nxt = v + 1
            if 0 <= v < 31: local_masks.append(n)
        out.append(indent() + draw(st.sampled_from(['}', '} ', '}  '])) + ('UThing' if td else draw(st.sampled_from(['', '']))) + draw(st.sampled_from([';', ' ;', ';'])) + draw(st.sampled_from(['', ' // end', ' /* end */'])))
    def other():
        out.extend(draw(st.sampled_from([['typedef int32_t UThing;'], ['U_CAPI UBool U_EXPORT2', 'u_isalpha(UChar32 c);'], ['U_CDECL_BEGIN'], ['#include "unicode/utypes.h"'],
                                         ['struct UFoo;', 'typedef struct UFoo UFoo;'], ['#define MAX2(a, b) ((a)<(b)?(b):(a))'], ['#define BIT(x) (1<<(x))'],
                                         ['#define GET3(a, b, c) \\', '    ((a)+(b) \\', '     +(c))'], ['#define SWITCHED_ON'], ['static inline int f(int x) {', '    return x;', '}'],
                                         ['#define STEP(c) { \\', '    ++(c); \\', '}'], ['typedef UBool U_CALLCONV', 'UEnumRange(const void *context, int type);'], ['#undef MAX2'], ['']])))
    local_masks = []
    comment(draw(words))
    out.append('#ifndef ' + guard)
    out.append('#define ' + guard)
    for _ in range(draw(st.integers(1, 9))):
        k = draw(st.integers(0, 9))
        if k <= 2: enum()
        elif k <= 5: define()
        elif k == 6: hidden('top')
        elif k == 7: comment(draw(words))
        else: other()
    out.append(draw(st.sampled_from(['#endif', '#endif /* guard */'])))
    return base, '\n'.join(out) + draw(st.sampled_from(['\n', ''])), {n: v for n, v in known.items()}, ignore


headers = st.composite(lambda draw: header(draw, st))


def draw_end(text):
    """One header in eight has lines that end as on Windows."""
    return '\r\n' if zlib.crc32(text.encode()) % 8 == 0 else '\n'


def load(ctx):
    builder.modules()


def public(env):
    return {n: v for n, v in env.items() if not n.startswith('__') and not callable(v)}


def run(ctx):
    H = builder.modules()['HeaderToPtyhon']
    src, out = Path(core.scratch()) / 'src', Path(core.scratch()) / 'out'
    os.makedirs(src / 'common', exist_ok=True)
    def translate(root, name, ignore=()):
        h = H.HeaderFile(root, name, out, extraCode=['def U_MASK(x: int) -> int: return 1<<x\n'], ignore=list(ignore))
        try: h.translate()
        finally:
            if hasattr(getattr(h, 'sourceFile', None), 'close'): h.sourceFile.close()
        h.writeFile()
        text = open(h.headerPath, encoding='utf-8').read()
        want = Path(name).name.replace('.', '_') + '.py'
        if Path(h.headerPath).name != want or Path(h.headerPath).parent != out: raise Violation(f'{name} was written to {h.headerPath}')
        env = {}
        try: exec(compile(text, want, 'exec'), env)
        except Exception as e: raise Violation(f'the module made from {name} does not load: {type(e).__name__}: {e}')
        return public(env)
    def one(h):
        ctx.current = name, text, want, ignore = h
        with open(src / 'common' / name, 'w', newline=draw_end(text)) as f: f.write(text)
        got = translate(src, 'common/' + name, ignore)
        for n in want:
            if n not in got: raise Violation(f'{n} is missing, the header defines it as {want[n]!r}\n{text}')
            if got[n] != want[n]: raise Violation(f'{n} is {got[n]!r}, the header defines it as {want[n]!r}\n{text}')
        extra = [n for n in got if n not in want]
        if extra: raise Violation(f'{extra} are defined, but not by the header\n{text}')
        ctx.case(text, len(want) > 1, sample=text, label='generated headers')
    ctx.given('generated headers', headers(), one, (400, 8000))
    ctx.many('many headers', lambda s: one(header(rnd.drawer(s), rnd)), (4000, 30000))

    def real(name):
        ctx.current = name
        got = translate(Path('/usr/include/unicode'), name, ['U_NO_NUMERIC_VALUE'])
        want = builder.c_values(f'unicode/{name}', got)
        for n in want:
            if got[n] != want[n]: raise Violation(f'{name}: {n} is {got[n]!r}, the C compiler says {want[n]}')
        more = [n for n in builder.c_constants(f'unicode/{name}') if n not in got]
        if more: raise Violation(f'{name}: {more[:5]} are missing')
        ctx.case(name, len(want) > 1, sample=f'{name}: {len(want)} constants', label='ICU headers')
        ctx.count(len(want))
    if builder.have_c():
        for n in ('uchar.h', 'uscript.h', 'ubidi.h', 'ushape.h', 'utrace.h', 'stringoptions.h', 'unorm2.h'): ctx.part(n, real, n)
