"""Names of property values."""
from hypothesis import strategies as st
from vp import core, env, icu, icudata, ucd
from vp.core import Violation

PID = 'C24'
RULE = ('A case is one numbered property value looked up in one dictionary of names (all values of 32 dictionaries, in an order drawn from the '
        "seed), or the name of a generated code point's value got through getter and dictionary. Non-trivial: the value is not 0; distinct "
        'by dictionary and value, or by code point and property.')
ASSUME = ["ICU 74's own short names (long ones for three old block names) are the oracle, for the values that exist in Unicode 13.",
          'Spelling follows each module: spaces for underscores, except for the Indic categories.']

BLK_LONG = {0, 76, 78, 109, 110}          # UnicodeData.Blocks uses the long name for these
us = lambda s: s
sp = lambda s: s.replace('_', ' ')
low = lambda s: s.lower()
# module, dictionary, ICU property, number of values in Unicode 13, spelling
TABLES = [('UCDTypeDictionaries', n, p, k, f) for n, p, k, f in (
    ('bidiClassNames', 0x1000, 23, sp), ('blockNames', 0x1001, 309, sp), ('decompositionTypeNames', 0x1003, 18, low), ('eastAsianWidthNames', 0x1004, 6, sp),
    ('generalCategoryNames', 0x1005, 30, sp), ('graphemeClusterBreakNames', 0x1012, 18, sp), ('hangulSyllableTypeNames', 0x100b, 6, sp),
    ('indicPositionalCategoryNames', 0x1016, 16, us), ('indicSyllabicCategoryNames', 0x1017, 36, us), ('joiningGroupNames', 0x1006, 102, sp),
    ('joiningTypeNames', 0x1007, 6, sp), ('lineBreakNames', 0x1008, 43, sp), ('numberTypeNames', 0x1009, 4, sp), ('sentenceBreakNames', 0x1013, 15, sp),
    ('scriptNames', 0x100a, 193, sp), ('verticalOrientationNames', 0x1018, 4, sp), ('wordBreakNames', 0x1014, 23, sp))] + [
    ('Blocks', 'blockNames', 0x1001, 309, sp), ('Boundaries', 'graphemeClusterBreakNames', 0x1012, 18, sp), ('Boundaries', 'wordBreakNames', 0x1014, 23, sp),
    ('Boundaries', 'sentenceBreakNames', 0x1013, 15, sp), ('Boundaries', 'lineBreakNames', 0x1008, 43, sp), ('Scripts', 'scriptCodes', 0x100a, 193, sp),
    ('GeneralCategories', 'generalCategories', 0x1005, 30, sp), ('JoiningTypesAndGroups', 'joiningTypes', 0x1007, 6, sp),
    ('JoiningTypesAndGroups', 'joiningGroups', 0x1006, 102, sp), ('CharDirection', 'bidiClassNames', 0x1000, 23, sp),
    ('DecompositionType', 'decompositionTypeNames', 0x1003, 18, low), ('EastAsianWidth', 'eastAsianWidthNames', 0x1004, 6, sp),
    ('LayoutTypes', 'inpcNames', 0x1016, 16, us), ('LayoutTypes', 'inscNames', 0x1017, 36, us), ('LayoutTypes', 'voNames', 0x1018, 4, us)]
# getter module, getter, property (oracle name), dictionaries
GETTERS = [('CharProps', 'getGeneralCategory', 'gc', 0x1005), ('CharProps', 'getScript', 'script', 0x100a), ('CharProps', 'getBlock', 'block', 0x1001),
           ('CharProps', 'getEastAsianWidth', 'ea', 0x1004), ('CharProps', 'getLineBreak', 'lb', 0x1008), ('CharProps', 'getSentenceBreak', 'sb', 0x1013),
           ('CharProps', 'getWordBreak', 'wb', 0x1014), ('CharProps', 'getGraphemeClusterBreak', 'gcb', 0x1012), ('CharProps', 'getDecompType', 'dt', 0x1003),
           ('CharProps', 'getNumericType', 'nt', 0x1009), ('BidiProps', 'getCharDirection', 'bc', 0x1000), ('BidiProps', 'getJoiningType', 'jt', 0x1007),
           ('BidiProps', 'getJoiningGroup', 'jg', 0x1006)]


def expected(module, prop, v, spelling):
    L = icu.lib()
    name = lambda k: L.u_getPropertyValueName_74(prop, v, k)
    if module == 'Blocks' and v in BLK_LONG: n = name(1)
    else: n = name(0)
    if n is None: raise core.HarnessError(f'ICU has no name for value {v} of property {prop:#x}')
    n = spelling(n.decode('ascii'))
    return n.upper() if (module, prop, v) == ('Boundaries', 0x1014, 22) else n


def load(ctx):
    for m in sorted({t[0] for t in TABLES}) + ['CharProps', 'BidiProps']: env.mod(m)


def run(ctx):
    icu.lib()
    import random
    order = [(t, v) for t in TABLES for v in range(t[3])]
    random.Random(ctx.seed).shuffle(order)
    def value(t, v):
        module, d, prop, n, f = t
        ctx.current = f'{module}.{d}[{v}]'
        table = getattr(env.mod(module), d)
        want = expected(module, prop, v, f)
        got = table.get(v)
        if got != want: raise Violation(f'{module}.{d}[{v}] is {got!r}, the name is {want!r}')
        ctx.case((module, d, v), v != 0, sample=f'{module}.{d}[{v}] = {want!r}', label=f'{module}')
    bad = {}
    for t, v in order:
        if (t[0], t[1]) in bad: continue
        before = len(ctx.violations)
        ctx.part(f'{t[0]}.{t[1]}', value, t, v)
        if len(ctx.violations) > before: bad[t[0], t[1]] = 1
    def extra(module, d, n):
        table = getattr(env.mod(module), d)
        more = [k for k in table if type(k) is not int or not 0 <= k < n]
        if more: raise Violation(f'{module}.{d} names {more[:5]}, which are no values of the property')
        if len(set(table.values())) != len(table): raise Violation(f'{module}.{d} gives one name to two values')
    for module, d, prop, n, f in TABLES: ctx.part(f'{module}.{d} keys', extra, module, d, n)

    interesting = {k: [c for c in range(0x110000) if c == 0 or ucd.values(k)[c] != ucd.values(k)[c - 1]] for _, _, k, _ in GETTERS}
    def named(t):
        g, c = t
        gm, fn, k, prop = GETTERS[g]
        if c is None: return
        v = getattr(env.mod(gm), fn)(c)
        for module, d, p, n, f in TABLES:
            if p != prop: continue
            want = expected(module, prop, ucd.values(k)[c], f)
            table = getattr(env.mod(module), d)
            got = table.get(v)
            if got != want: raise Violation(f'U+{c:04X}: {fn} gives {v}, {module}.{d} calls it {got!r}; Unicode 13 says {want!r}')
        ctx.case((fn, c), v != 0, label='code points named')
    points = st.integers(0, len(GETTERS) - 1).flatmap(lambda g: st.tuples(st.just(g), st.one_of(st.sampled_from(interesting[GETTERS[g][2]]), env.code_points())))
    ctx.given('code points', points, named, (2500, 40000))
