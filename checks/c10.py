"""General category and the character class predicates."""
from vp import env, ucd
from vp.core import Violation

PID = 'C10'
RULE = ('A case is one call of one function on one code point; every function is called on all of U+0000..U+10FFFF in an order drawn '
        'from the seed. Non-trivial: the expected answer is not that of an unassigned code point (Cn, or False for a predicate).')
ASSUME = ['oracle/unicode13.json.gz gives Unicode 13 (it was generated from the JDK 17 database and cross-checked with Python and Perl).',
          "The predicates mean what ICU's uchar.h documents for the functions they are named after."]

CATS = ['Cn', 'Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Mn', 'Me', 'Mc', 'Nd', 'Nl', 'No', 'Zs', 'Zl', 'Zp', 'Cc', 'Cf', 'Co', 'Cs', 'Pd', 'Ps', 'Pe',
        'Pc', 'Po', 'Sm', 'Sc', 'Sk', 'So', 'Pi', 'Pf']


def expected():
    alpha, white = ucd.values('bin_ALPHABETIC'), ucd.values('bin_WHITE_SPACE')
    iso = lambda c, g: c < 0x20 or 0x7f <= c <= 0x9f
    ascii_space = lambda c: 9 <= c <= 13 or 0x1c <= c <= 0x1f
    ignorable = lambda c, g: (iso(c, g) and not ascii_space(c)) if c <= 0x9f else g == 'Cf'
    fw = set(range(0x41, 0x47)) | set(range(0x61, 0x67)) | set(range(0xff21, 0xff27)) | set(range(0xff41, 0xff47))
    return {
        'isLower': lambda c, g: g == 'Ll', 'isUpper': lambda c, g: g == 'Lu', 'isTitle': lambda c, g: g == 'Lt',
        'isDigit': lambda c, g: g == 'Nd', 'isHexDigit': lambda c, g: g == 'Nd' or c in fw, 'isalpha': lambda c, g: g[0] == 'L',
        'isAlphabetic': lambda c, g: bool(alpha[c]), 'isalnum': lambda c, g: g[0] == 'L' or g == 'Nd',
        'isalnumPOSIX': lambda c, g: bool(alpha[c]) or g == 'Nd', 'isDefined': lambda c, g: g != 'Cn',
        'isbase': lambda c, g: g[0] in 'LN' or g in ('Mc', 'Me'), 'iscntrl': lambda c, g: g in ('Cc', 'Cf', 'Zl', 'Zp'),
        'isISOControl': iso, 'isspace': lambda c, g: g[0] == 'Z' or ascii_space(c) or c == 0x85,
        'isJavaSpaceChar': lambda c, g: g[0] == 'Z',
        'isWhiteSpace': lambda c, g: (g[0] == 'Z' and c not in (0xa0, 0x2007, 0x202f)) or ascii_space(c),
        'isBlank': lambda c, g: c in (9, 0x20) if c <= 0x9f else g == 'Zs', 'isUWhiteSpace': lambda c, g: bool(white[c]),
        'isPrint': lambda c, g: g[0] != 'C', 'isPrintPOSIX': lambda c, g: g == 'Zs' or not (g[0] == 'Z' or g in ('Cc', 'Cs', 'Cn')),
        'isgraph': lambda c, g: not (g[0] == 'Z' or g in ('Cc', 'Cf', 'Cs', 'Cn')),
        'isGraphPOSIX': lambda c, g: not (g[0] == 'Z' or g in ('Cc', 'Cs', 'Cn')), 'ispunct': lambda c, g: g[0] == 'P',
        'isIDStart': lambda c, g: g[0] == 'L' or g == 'Nl', 'isIDIgnorable': ignorable,
        'isIDPart': lambda c, g: g[0] == 'L' or g in ('Nd', 'Nl', 'Pc', 'Mc', 'Mn') or ignorable(c, g),
        'isJavaIDStart': lambda c, g: g[0] == 'L' or g in ('Sc', 'Pc'),
        'isJavaIDPart': lambda c, g: g[0] == 'L' or g in ('Nd', 'Nl', 'Sc', 'Pc', 'Mc', 'Mn') or ignorable(c, g),
        'isThatASCIIControlSpace': lambda c, g: ascii_space(c), 'isThatControlSpace': lambda c, g: ascii_space(c) or c == 0x85,
    }


def load(ctx):
    global P
    P = env.mod('CharProps')


def run(ctx):
    gc = [CATS[g] for g in ucd.values('gc')]
    names = {i: n for i, n in enumerate(CATS)}
    jobs = [ucd.Job('getGeneralCategory', lambda c: names.get(P.getGeneralCategory(c)), gc, 'Cn')]
    for name, f in expected().items():
        jobs.append(ucd.Job(name, getattr(P, name), [f(c, g) for c, g in enumerate(gc)], False, norm=bool))
    ucd.sweep_all(ctx, jobs)
    # the names and masks callers use with the category
    def tables():
        for i, n in enumerate(CATS):
            ctx.current = n
            if P.generalCategories.get(i) != n: raise Violation(f'generalCategories[{i}] is {P.generalCategories.get(i)!r}, not {n}')
            if P.gcMask(i) != 1 << i: raise Violation(f'gcMask({i}) is {P.gcMask(i):#x}')
            m = getattr(P, f'GC_{n.upper()}_MASK')
            if m != 1 << i: raise Violation(f'GC_{n.upper()}_MASK is {m:#x}')
        for group in ('L', 'M', 'N', 'Z', 'C', 'P', 'S', 'LC'):
            ctx.current = group
            m = sum(1 << i for i, n in enumerate(CATS) if (n in ('Lu', 'Ll', 'Lt') if group == 'LC' else n[0] == group))
            got = getattr(P, f'GC_{group}_MASK')
            if got != m: raise Violation(f'GC_{group}_MASK is {got:#x}, its categories make {m:#x}')
        if len(P.generalCategories) != 30: raise Violation(f'{len(P.generalCategories)} category names')
        ctx.count(98)
    ctx.part('category tables', tables)
    ctx.exhaustive = True
