"""Character names: code point to name, and back."""
import ctypes, struct
from hypothesis import strategies as st
from vp import core, env, icu, icudata, ucd, unames
from vp.core import Violation

PID = 'C19'
RULE = ('A case is one name lookup: every code point of the system ICU data for four name choices and the extended choice, or every code '
        'point in and around the groups and algorithmic ranges of a generated names file, in both directions. Non-trivial: the code point '
        'has a name of that kind, or a name is looked up. Distinct by code point and choice, or by file.')
ASSUME = ['The data file is rebuilt from libicudata.so.74 (names of Unicode 15.1) or generated in the unames.icu format; ICU 74 itself '
          'is the oracle for the former.', 'The extended choice gives <category-code> for every code point without an algorithmic name, as the tests pin it.',
          'The data is well formed: ";" is no token number and no trail byte.']

CATS = ['unassigned', 'uppercase letter', 'lowercase letter', 'titlecase letter', 'modifier letter', 'other letter', 'non spacing mark', 'enclosing mark',
        'combining spacing mark', 'decimal digit number', 'letter number', 'other number', 'space separator', 'line separator', 'paragraph separator',
        'control', 'format', 'private use area', 'surrogate', 'dash punctuation', 'start punctuation', 'end punctuation', 'connector punctuation',
        'other punctuation', 'math symbol', 'currency symbol', 'modifier symbol', 'other symbol', 'initial punctuation', 'final punctuation']


def extended(c, gc, alg):
    if alg: return alg
    if c & 0xfffe == 0xfffe or 0xfdd0 <= c <= 0xfdef: cat = 'noncharacter'
    elif 0xd800 <= c <= 0xdbff: cat = 'lead surrogate'
    elif 0xdc00 <= c <= 0xdfff: cat = 'trail surrogate'
    else: cat = CATS[gc]
    return f'<{cat}-{c:04X}>'


def icu_name(c, choice, buf=ctypes.create_string_buffer(400)):
    ec = ctypes.c_int(0)
    icu.lib().u_charName_74(c, choice, buf, 400, ctypes.byref(ec))
    if ec.value > 0: raise core.HarnessError(f'u_charName({c:#x}): {ec.value}')
    return buf.value.decode('ascii')


def alg_ranges():
    """The algorithmic ranges of the system's names file, as (start, end)."""
    d = icudata.system_items()['unames.icu']
    base = struct.unpack_from('<H', d)[0]
    at = base + struct.unpack_from('<4I', d, base)[3]
    n, = struct.unpack_from('<I', d, at)
    at += 4
    out = []
    for _ in range(n):
        s, e, _, _, size = struct.unpack_from('<IIBBH', d, at)
        out.append((s, e)); at += size
    return out


def load_names(item, others=True):
    items = dict(icudata.system_items()) if others else {}
    items['unames.icu'] = item
    icudata.overlay(icudata.pack(items))
    return icudata.mod('CharNames').CharNames


def load(ctx):
    global CharNames
    CharNames = load_names(icudata.system_items()['unames.icu'])


def run(ctx):
    icu.lib()
    gc = ucd.values('gc')
    algs = alg_ranges()
    N = CharNames
    import multiprocessing as mp
    with mp.get_context('fork').Pool(8) as pool:
        tables = {}
        for ch in (0, 1, 3): tables[ch] = sum(pool.map(_icu_names, [(ch, a) for a in range(0, 0x110000, 0x8000)]), [])
    a = {c for s, e in algs for c in range(s, e + 1)}
    tables[2] = [extended(c, gc[c], tables[0][c] if c in a else None) for c in range(0x110000)]
    ucd.sweep_all(ctx, [ucd.Job(f'getCharName choice {ch}', lambda c, ch=ch: N.getCharName(c, ch), tables[ch], '', what='ICU says') for ch in range(4)])

    named = [c for c in range(0x110000) if tables[0][c]]
    first = {}
    for c in named: first.setdefault(tables[0][c], c)
    aliases = [c for c in range(0x110000) if tables[3][c]]
    def back(t):
        c, ch = t
        n = tables[ch][c]
        got = N.charFromName(n, ch)
        if got != c: raise Violation(f'charFromName({n!r}, {ch}) is {got:#x}, the name is that of U+{c:04X}')
        ctx.case(('back', t), True, label='names looked up')
    ctx.given('charFromName', st.one_of(st.tuples(st.sampled_from(named), st.just(0)), st.tuples(st.sampled_from(aliases), st.just(3))), back, (40, 500))
    def absent(s):
        if s in first: return
        got = N.charFromName(s)
        if got != 0xffffffff: raise Violation(f'charFromName({s!r}) is {got:#x}, there is no such name')
        ctx.case(('absent', s), True, label='absent names')
    ctx.given('absent names', st.one_of(st.sampled_from(['', 'latin small letter a', 'CJK UNIFIED IDEOGRAPH-0041', 'HANGUL SYLLABLE', '<control-0000>', 'A']),
                                        st.sampled_from(named).map(lambda c: tables[0][c][:-1]), st.text(max_size=8)), absent, (12, 100))

    # generated names files
    def body(spec):
        X = load_names(spec.item(), others=False)
        probe = set()
        for c in list(spec.fields): probe |= set(range(c & ~31, (c | 31) + 1)) | {c - 32, c + 32}
        for s, e, _ in spec.algs: probe |= set(range(s - 2, e + 3))
        probe |= {0, 0x41, 0xffff, 0x10ffff}
        probe = sorted(c for c in probe if 0 <= c <= 0x10ffff)
        for c in probe:
            for ch in (0, 1, 3, 4):
                w, got = spec.name(c, ch), X.getCharName(c, ch)
                if got != w: raise Violation(f'getCharName({c:#x}, {ch}) is {got!r}, the file says {w!r}')
            w = extended(c, gc[c], spec.alg_name(c))
            if X.getCharName(c, 2) != w: raise Violation(f'getCharName({c:#x}, extended) is {X.getCharName(c, 2)!r}, expected {w!r}')
        if X.getCharName(probe[-1]) != X.getCharName(probe[-1], 0): raise Violation('the default choice is not the character name')
        for ch in (0, 3):
            w = {}
            for c, n in spec.named(ch).items(): w.setdefault(n, c)
            for n in list(w)[:40:2] + list(w)[-10:]:
                if X.charFromName(n, ch) != w[n]: raise Violation(f'charFromName({n!r}, {ch}) is {X.charFromName(n, ch):#x}, the file says {w[n]:#x}')
        # a name of one kind is no name of another
        kinds = {ch: spec.named(ch) for ch in (0, 1, 3, 4)}
        for ch in kinds:
            for n in [x for o in kinds if o != ch for x in list(kinds[o].values())[:3] + list(kinds[o].values())[-3:]]:
                w = min((c for c, x in kinds[ch].items() if x == n), default=0xffffffff)
                if X.charFromName(n, ch) != w: raise Violation(f'charFromName({n!r}, {ch}) is {X.charFromName(n, ch):#x}, the file says {w:#x}')
        if X.charFromName('NO SUCH NAME', 0) != 0xffffffff: raise Violation('an absent name was found')
        ctx.count(5 * len(probe))
        ctx.case((sorted(spec.fields.items()), spec.algs, spec.seed), len(spec.fields) > 3 and len(spec.algs) > 0,
                 sample=f'{len(spec.fields)} names, ranges {[(hex(a), hex(b), s[0]) for a, b, s in spec.algs]}', label='generated files')
    ctx.given('generated names', unames.specs(), body, (150, 2500))


def _icu_names(t):
    ch, a = t
    return [icu_name(c, ch) for c in range(a, a + 0x8000)]
