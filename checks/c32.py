"""Property lookups decode whatever property data they are given, not just Unicode 13's."""
import importlib, random, sys, types
from hypothesis import strategies as st
from vp import env, utrie2
from vp.core import Violation
from vp.words import also
from checks.c11 import decode, close

PID = 'C32'
RULE = ('A case is one set of generated property data in the format of the data modules (case, bidi or character properties; every field, escape and '
        'exception the format has), loaded in place of Unicode 13\'s and looked up at and around every code point it mentions. Non-trivial: at '
        'least 3 code points with data; distinct by data.')
ASSUME = ["The formats are those of ICU 69 (ucase.h, ubidi_props.h, uprops.h); full case mappings are of BMP characters, as all of Unicode's are.",
          'Code points with conditional mappings of their own (U+0130, U+0587) are left out, as their full mappings are fixed in the code.',
          'Mirroring tables are sorted by code point, as ICU writes and searches them.']
KEEP = {'uchar_h', 'uprops_h', 'uscript_h', 'ucase_h', 'UCDTypeDictionaries', 'GeneralCategories', 'Blocks', 'Scripts', 'Characters', 'BidiPropsData', 'CasePropsData', 'CharPropsData'}


def fresh(data, name, values):
    """The module `name` imported with the data module holding the values."""
    for m in [m for m in sys.modules if m.startswith('UnicodeData.') and m[12:] not in KEEP]: del sys.modules[m]
    d = types.ModuleType('UnicodeData.' + data)
    d.__dict__.update(values)
    pkg = importlib.import_module('UnicodeData')
    sys.modules['UnicodeData.' + data] = d
    setattr(pkg, data, d)
    return env.mod(name)


def trie(words, prefix, arrays, highs=None):
    """Trie variables for {code point: 16-bit word}, 0 elsewhere (the value `highs` from the last one on, if given)."""
    runs = [(0, 0)]
    for c, v in sorted(words.items()): runs = utrie2.paint(runs, c, c + 1, v)
    if highs: runs = utrie2.paint(runs, highs[0], 0x110000, highs[1])
    b = utrie2.build(runs, 0, 0)
    return {arrays: list(b.index), prefix + '_index_length': b.index_length, prefix + '_index_2_null_offset': b.index2_null,
            prefix + '_data_null_offset': b.data_null, prefix + '_high_start': b.high_start, prefix + '_high_value_index': b.high_value_index}


PROPS = 'UnicodeData/CaseProps.py', 'UnicodeData/BidiProps.py', 'UnicodeData/CharProps.py'
cps = also(st, env.code_points(), *PROPS).filter(lambda c: 0 <= c <= 0x10ffff and c not in (0x130, 0x587) and not 0xd800 <= c <= 0xdbff)
spread = lambda lo, hi: st.one_of(st.integers(lo, min(hi, lo + 4)), st.sampled_from([lo, hi, (lo + hi) // 2]), st.integers(lo, hi))


@st.composite
def cases(draw):
    """{code point: fields} of case data."""
    out = {}
    for c in draw(st.lists(cps, min_size=2, max_size=9, unique=True)):
        kind = draw(st.sampled_from([0, 1, 2, 3]))
        noise = draw(st.sampled_from([0, 4, 0x10, 0x20, 0x40, 0x60, 0x14]))
        bmp = also(st, st.one_of(st.integers(0x20, 0x24f), st.integers(0xe000, 0xffff), st.integers(0x1e00, 0xd7ff)), PROPS[0], lo=0x20, top=0xffff).filter(lambda x: not 0xd800 <= x <= 0xdfff)
        if draw(st.integers(0, 3)) == 0:
            lo, hi = max(-256, -c), min(255, 0x10ffff - c)
            out[c] = dict(kind=kind, noise=noise & 0x74, delta=draw(spread(lo, hi)))
            continue
        big = draw(st.booleans())
        val = st.one_of(bmp, env.code_points().filter(lambda x: 0 <= x <= 0x10ffff)) if big else bmp
        slots = {}
        for i in draw(st.sets(st.integers(0, 7), max_size=6)):
            if i == 4:
                lo, hi = 0, 0xffff if not big else 0x1ffff
                slots[4] = draw(spread(lo, hi))
            elif i == 6: slots[6] = draw(st.integers(0, 3))
            elif i == 5: slots[5] = draw(st.integers(0, 0xffff))
            elif i != 7: slots[i] = draw(val)
        full = None
        if draw(st.booleans()): full = [draw(st.one_of(st.just([]), st.lists(st.one_of(bmp, st.integers(0x10000, 0x10ffff)), max_size=4))) for _ in range(4)]
        neg = draw(st.booleans())
        if 4 in slots:
            if neg: slots[4] = min(slots[4], c)
            else: slots[4] = min(slots[4], 0x10ffff - c)
        out[c] = dict(kind=kind, noise=noise & 4, big=big, slots=slots, full=full, neg=neg, special=draw(st.integers(0, 5)) == 5,
                      flags=draw(st.sampled_from([0, 0x200, 0x800, 0x1000, 0x2000, 0x3000, 0x8000])))
    return out


def utf16(cs): return [u for c in cs for u in ([c] if c < 0x10000 else [0xd7c0 + (c >> 10), 0xdc00 + (c & 0x3ff)])]


def encode_case(data, gap):
    words, exc = {}, [0] * gap
    for c, d in data.items():
        if 'delta' in d:
            words[c] = d['kind'] | d['noise'] | (d['delta'] & 0x1ff) << 7
            continue
        at = len(exc)
        slots = dict(d['slots'])
        if d['full'] is not None: slots[7] = sum(len(utf16(s)) << 4 * i for i, s in enumerate(d['full']))
        exc.append(sum(1 << i for i in slots) | (0x100 if d['big'] else 0) | (0x400 if d['neg'] else 0) | (0x4000 if d['special'] else 0) | d['flags'])
        for i in sorted(slots): exc += [slots[i] >> 16, slots[i] & 0xffff] if d['big'] else [slots[i]]
        for s in d['full'] or []: exc += utf16(s)
        exc += [0x61] * slots.get(6, 0)
        words[c] = d['kind'] | d['noise'] | 8 | at << 4
    return words, exc + [0]


def case_answers(c, d):
    """lower, upper, title, full lower, full upper, full title."""
    k = d['kind']
    if 'delta' in d:
        lo, up = (c + d['delta'] if k & 2 else c), (c + d['delta'] if k == 1 else c)
        return lo, up, up, chr(lo), chr(up), chr(up)
    s = d['slots']
    shifted = c + (-s[4] if d['neg'] else s[4]) if 4 in s else None
    lo = shifted if 4 in s and k & 2 else s.get(0, c)
    up = shifted if 4 in s and k == 1 else s.get(2, c)
    ti = shifted if 4 in s and k == 1 else s.get(3, s.get(2, c))
    full = d['full'] if d['full'] is not None and not d['special'] else [[]] * 4
    text = lambda s, simple: ''.join(map(chr, s)) if s else chr(simple)
    return lo, up, ti, text(full[0], lo), text(full[2], up), text(full[3], ti)


@st.composite
def bidis(draw):
    chars = {}
    for c in draw(st.lists(cps, min_size=2, max_size=9, unique=True)):
        m = draw(st.integers(-4, 3))
        if m != -4: m = max(-c, min(m, 0x10ffff - c))
        chars[c] = dict(bc=draw(st.integers(0, 22)), jt=draw(st.integers(0, 5)), bpt=draw(st.integers(0, 2)), jc=draw(st.booleans()), ctl=draw(st.booleans()),
                        mirrored=draw(st.booleans()), delta=m)
    escapes = [c for c, d in chars.items() if d['delta'] == -4]
    table = sorted(set(draw(st.lists(cps, max_size=6))) | set(c for c in escapes if draw(st.integers(0, 3))))
    targets = [draw(st.integers(0, len(table) - 1)) for _ in table]
    if draw(st.booleans()):       # one block of joining groups, or two in any order
        starts = draw(st.sampled_from([[0x620, 0x860], [0x10ac0, 0x620], [0x620, 0x10ac0], [0, 0x30], [0x10fff0, 0x620]]))
    else: starts = [0x620, 0x10ac0]
    jg = [draw(st.lists(st.integers(1, 104), min_size=0, max_size=12)) for _ in starts]
    return chars, table, targets, starts, jg


@st.composite
def chars(draw):
    word = also(st, st.one_of(st.integers(0, 0xffffffff), st.sampled_from([0, 0xffffffff, 0x00f000ff, 0x00c00001, 0x00400000, 0x00800000, 0x00bfffff, 0x003fffff])), PROPS[2], top=0xffffffff)
    rows = draw(st.lists(st.tuples(word, word, word), min_size=2, max_size=7))
    ext = draw(st.lists(st.integers(0, 0x3ff), min_size=4, max_size=8))
    fixed = []
    for w in rows:
        w = list(w)
        if w[0] & 0xc00000 == 0xc00000: w[0] = w[0] & ~0x3000ff | draw(st.integers(0, len(ext) - 1))    # an index into the extensions
        fixed.append(w)
    used = draw(st.lists(cps, min_size=2, max_size=9, unique=True))
    return dict(rows=fixed, ext=ext, columns=draw(st.sampled_from([3, 3, 3, 4, 6])), chars={c: (draw(st.integers(0, 29)), draw(st.integers(0, 1023)), draw(st.integers(0, len(rows) - 1))) for c in used})


def wide(seed):
    """Bidi and character data of real size: long mirror tables, long joining-group blocks at block boundaries, many script extensions."""
    r = random.Random(seed)
    cp = lambda: r.choice([r.randrange(0x250), r.randrange(0x10000), r.randrange(0x110000)])
    ok = lambda c: c not in (0x130, 0x587) and not 0xd800 <= c <= 0xdbff
    table = sorted({c for c in (cp() for _ in range(r.choice([3, 250, 300, 600, 1500, 2040]))) if ok(c)})
    targets = list(range(len(table)))
    r.shuffle(targets)
    used = r.sample(table, min(len(table), 40)) + table[-2:] + [table[i] for i, t in enumerate(targets) if t in (255, 256, 257, 511, 512, 1023, 1024)]
    some = lambda: dict(bc=r.randrange(23), jt=r.randrange(6), bpt=r.randrange(3), jc=r.random() < .3, ctl=r.random() < .3, mirrored=r.random() < .5, delta=-4)
    chars = {c: some() for c in used}
    starts = [r.choice([0x600, 0x620, 0x700, 0x800, 0xa00, 0x5ff]), r.choice([0x10a00, 0x10ac0, 0x10b00, 0x10aff, 0x11000])]
    jg = [[r.choice([0, r.randrange(1, 105)]) for _ in range(r.choice([0, 1, 255, 256, 257, 300, 512, 600]))] for _ in starts]
    bidi = chars, table, targets, starts, jg
    ext = [r.randrange(1024) for _ in range(r.choice([255, 256, 257, 300, 520, 1024]))]
    rows = []
    for _ in range(r.randrange(4, 40)):
        a = r.getrandbits(32)
        if a & 0xc00000 == 0xc00000 or r.random() < .5:
            i = r.choice([r.randrange(len(ext)), len(ext) - 1, min(256, len(ext) - 1)])
            a = a & ~0xf000ff | 0xc00000 | (i & 0xff) | (i & 0x300) << 12
        rows.append([a, r.getrandbits(32), r.getrandbits(32)])
    return bidi, dict(rows=rows, ext=ext, columns=r.choice([3, 3, 3, 4, 5]), chars={c: (r.randrange(30), r.randrange(1024), i) for c, i in zip({c for c in (cp() for _ in range(len(rows))) if ok(c)}, range(len(rows)))})


def wide_case(seed):
    """Case data of a few hundred code points with all combinations of exception slots."""
    r = random.Random(seed)
    bmp = lambda: r.choice([r.randint(0x20, 0x24f), r.randint(0xe000, 0xffff), r.randint(0x1e00, 0xd7ff)])
    any_ = lambda big: r.randint(0x10000, 0x10ffff) if big and r.random() < .5 else bmp()
    out, size = {}, 0
    combos = [(k, big) for k in range(256) for big in (False, True)]
    r.shuffle(combos)
    for k, big in combos:
        c = r.choice([bmp(), bmp(), r.randint(0x10000, 0x10ffff)])
        if c in (0x130, 0x587): continue
        slots = {i: any_(big) for i in range(7) if k >> i & 1}
        if 5 in slots: slots[5] = r.getrandbits(16)
        if 6 in slots: slots[6] = r.randint(0, 3)
        neg = r.random() < .5
        if 4 in slots: slots[4] = r.randint(0, min(c if neg else 0x10ffff - c, 0x1ffff if big else 0xffff))
        n = lambda: r.choice([0, 0, 1, 2, 3, 15 if r.random() < .1 else 1])
        full = [[r.randint(0x10000, 0x10ffff) if m < 8 and r.random() < .1 else bmp() for _ in range(m)] for m in (n(), n(), n(), n())] if k & 128 else None
        size += 1 + (len(slots) + (full is not None)) * (2 if big else 1) + 2 * sum(map(len, full or [])) + slots.get(6, 0)
        if size > 0xf00: break
        out[c] = dict(kind=r.randrange(4), noise=r.choice([0, 4]), big=big, slots=slots, full=full, neg=neg, special=r.random() < .1, flags=r.choice([0, 0x200, 0x800, 0x1000, 0x2000, 0x3000, 0x8000]))
    return out, r.choice([0, 1, 7])


def around(cs): return sorted({x for c in cs for x in (c - 1, c, c + 1, c ^ 0x20, c & ~31, 0x10ffff, 0x41) if 0 <= x <= 0x10ffff})


def case_values(data, gap):
    """The variables of a case data module."""
    words, exc = encode_case(data, gap)
    return trie(words, 'ucase_props_trie', 'ucase_props_trieIndex') | dict(ucase_props_indexes=[16, 0, 0, len(exc), 0] + [0] * 11, ucase_props_exceptions=exc, ucase_props_unfold=[0] * 5)


def check_case(ctx, C, data):
    for c in around(data):
        d = data.get(c)
        want = case_answers(c, d) if d else (c, c, c, chr(c), chr(c), chr(c))
        got = tuple(f(c) for f in (C.toLower, C.toUpper, C.toTitle, C.toFullLower, C.toFullUpper, C.toFullTitle))
        if got != want:
            names = ['toLower', 'toUpper', 'toTitle', 'toFullLower', 'toFullUpper', 'toFullTitle']
            i = [a == b for a, b in zip(got, want)].index(False)
            raise Violation(f'{names[i]}(U+{c:04X}) is {got[i]!r}, the data {d} say {want[i]!r}')
        ctx.count(6)


def bidi_values(t):
    """The variables of a bidi data module."""
    data, table, targets, starts, jg = t
    word = lambda d: d['bc'] | d['jt'] << 5 | d['bpt'] << 8 | d['jc'] << 10 | d['ctl'] << 11 | d['mirrored'] << 12 | (d['delta'] & 7) << 13
    return trie({c: word(d) for c, d in data.items()}, 'ubidi_props_trie', 'ubidi_props_trieIndex') | dict(
        ubidi_props_indexes=[16, 0, 0, len(table), starts[0], starts[0] + len(jg[0]), starts[1], starts[1] + len(jg[1])] + [0] * 8,
        ubidi_props_mirrors=[c | i << 21 for c, i in zip(table, targets)], ubidi_props_jgArray=jg[0], ubidi_props_jgArray2=jg[1])


def check_bidi(ctx, B, t):
    data, table, targets, starts, jg = t
    groups = {}
    for s, g in reversed(list(zip(starts, jg))): groups |= {s + i: v for i, v in enumerate(g)}
    none = dict(bc=0, jt=0, bpt=0, jc=False, ctl=False, mirrored=False, delta=0)
    for c in around([*data, *table, *starts, *groups]):
        d = data.get(c, none)
        if d['delta'] != -4: m = c + d['delta']
        else: m = table[targets[table.index(c)]] if c in table else c
        want = dict(getCharDirection=d['bc'], getJoiningType=d['jt'], getPairedBracketType=d['bpt'], isJoinControl=d['jc'], isBidiControl=d['ctl'],
                    isMirrored=d['mirrored'], getMirror=m, getPairedBracket=m if d['bpt'] else c, getJoiningGroup=groups.get(c, 0))
        for n, w in want.items():
            got = getattr(B, n)(c)
            if got != w: raise Violation(f'{n}(U+{c:04X}) is {got!r}, the data {d} (mirrors {[hex(x) for x in table]}) say {w!r}')
            ctx.count()


def char_values(t):
    """The variables of a character data module."""
    rows, ext, data, cols = t['rows'], t['ext'], t['chars'], t.get('columns', 3)
    return (trie({c: g | n << 6 for c, (g, n, r) in data.items()}, 'propsTrie', 'propsTrie_index') |
            trie({c: cols * r for c, (g, n, r) in data.items()}, 'propsVectorsTrie', 'propsVectorsTrie_index') |
            dict(propsVectors=[w for i, r in enumerate(rows) for w in [*r, *(more(i, k) for k in range(3, cols))]], propsVectorsColumns=cols, scriptExtensions=ext))


def more(i, column):
    """What row i has in a column that Unicode 13 does not have."""
    return (i * 0x9e3779b1 + column * 0x85ebca6b + 1) & 0xffffffff


def check_char(ctx, P, t):
    rows, ext, data = t['rows'], t['ext'], t['chars']
    for c in around(data):
        g, n, r = data.get(c, (0, 0, 0))
        a, b, v = rows[r]
        x = (a & 0x300000) >> 12 | a & 0xff
        kind = a >> 22 & 3
        nt = 0 if n == 0 else 1 if n < 11 else 2 if n < 21 else 3
        want = dict(getGeneralCategory=g, getNumericType=nt, getAge=[a >> 28, a >> 24 & 15, 0, 0], getScript=[x, 0, 1, None][kind] if kind < 3 else ext[x],
                    getBlock=a >> 8 & 0x1ff, getEastAsianWidth=a >> 17 & 7, getLineBreak=v >> 20 & 63, getSentenceBreak=v >> 15 & 31, getWordBreak=v >> 10 & 31,
                    getGraphemeClusterBreak=v >> 5 & 31, getDecompType=v & 31, isExtendedPictograph=bool(v >> 26 & 1), isEmojiComponent=bool(v >> 27 & 1),
                    isEmoji=bool(v >> 28 & 1), isEmojiPresentation=bool(v >> 29 & 1), isEmojiModifier=bool(v >> 30 & 1), isEmojiModifierBase=bool(v >> 31),
                    digitValue=n - 1 if 1 <= n <= 10 else -1)
        for name, w in want.items():
            got = getattr(P, name)(c)
            # numeric types of reserved encodings have no meaning
            if name == 'getNumericType' and n >= 0x34c: continue
            # digitValue of None (0) is -1
            if got != w: raise Violation(f'{name}(U+{c:04X}) is {got!r}, the data ({g}, {n:#x}, {a:#x}, {b:#x}, {v:#x}) say {w!r}')
            ctx.count()
        got, w = P.getNumericValue(c), decode(n)
        if (got is None) != (w is None) or w is not None and not close(got, w): raise Violation(f'getNumericValue(U+{c:04X}) is {got!r}, {n:#x} stands for {w}')
        for i in range(32):
            for col, src in ((1, b), (2, v), (0, a)):
                if bool(P.getBinaryProp(c, i, col)) != bool(src >> i & 1): raise Violation(f'getBinaryProp(U+{c:04X}, {i}, {col}) is not bit {i} of {src:#x}')
        for col in range(8):
            w = (a, b, v)[col] if col < 3 else more(r, col) if col < t.get('columns', 3) else 0
            if P.getUnicodeProperties(c, col) != w: raise Violation(f'getUnicodeProperties(U+{c:04X}, {col}) is {P.getUnicodeProperties(c, col):#x}, expected {w:#x}')


def run(ctx):
    env.mod('uchar_h')

    def case(t):
        data, gap = t
        v = case_values(data, gap)
        if len(v['ucase_props_exceptions']) >= 0xfff: return
        check_case(ctx, fresh('CasePropsData', 'CaseProps', v), data)
        ctx.case(('case', sorted(data.items()), gap), len(data) > 2, sample=data, label='case data')
        for d in data.values():
            if d.get('big'): ctx.label('exceptions with double slots')
            if d.get('full') and d['full'][0]: ctx.label('full lower case mappings')
    ctx.given('case data', st.tuples(cases(), st.sampled_from([0, 1, 5, 300])), case, (250, 6000))

    def bidi(t):
        check_bidi(ctx, fresh('BidiPropsData', 'BidiProps', bidi_values(t)), t)
        data = t[0]
        ctx.case(('bidi', repr(t)), len(data) > 2, sample=t, label='bidi data')
        if any(d['delta'] == -4 for d in data.values()): ctx.label('mirrors by table')
    ctx.given('bidi data', bidis(), bidi, (170, 5000))

    def char(t):
        data = t['chars']
        check_char(ctx, fresh('CharPropsData', 'CharProps', char_values(t)), t)
        ctx.case(('char', repr(t)), len(data) > 2, sample=t, label='character data')
    ctx.given('character data', chars(), char, (150, 3000))

    def large(seed):
        b, c = wide(seed)
        bidi(b)
        char(c)
        ctx.label('data of real size')
    ctx.many('data of real size', large, (60, 800))
    def combinations(seed): case(wide_case(seed))
    ctx.many('combinations of case exceptions', combinations, (24, 400))
