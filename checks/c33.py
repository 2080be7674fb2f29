"""Numbers beyond the last code point."""
from hypothesis import strategies as st
from vp import core, env, icudata
from vp.core import Violation

PID = 'C33'
RULE = ('A case is one query of one number above U+10FFFF, compared with the answer for "no character". Non-trivial: the number is one a '
        'lookup could fold onto a code point (a code point plus a multiple of a power of two) or lies within 0x2000 of U+10FFFF.')
ASSUME = ['The full case mappings, which return strings, have no answer for such numbers and are left out, and so are the extended names.']
LIMIT = 0x10ffff

FALSE = '''isLower isUpper isTitle isDigit isHexDigit isalpha isAlphabetic isalnum isalnumPOSIX isDefined isbase iscntrl isISOControl
isThatControlSpace isThatASCIIControlSpace isspace isJavaSpaceChar isWhiteSpace isBlank isUWhiteSpace isPrint isPrintPOSIX isgraph isGraphPOSIX
ispunct isIDStart isIDPart isIDIgnorable isJavaIDStart isJavaIDPart isExtendedPictograph isEmojiComponent isEmoji isEmojiPresentation
isEmojiModifier isEmojiModifierBase'''.split()
ZERO = '''getGeneralCategory getNumericType getNumericTypeValue getBlock getEastAsianWidth getLineBreak getSentenceBreak getWordBreak
getGraphemeClusterBreak getDecompType'''.split()


def queries():
    """(name, function, expected answer as a function of the number)."""
    M = icudata.mod
    P, B, C, L, D = M('CharProps'), M('BidiProps'), M('CaseProps'), M('LayoutProps'), M('Normalizer2')
    names = M('CharNames').CharNames
    out = [(n, lambda c, f=getattr(P, n): bool(f(c)), lambda c: False) for n in FALSE]
    out += [(n, getattr(P, n), lambda c: 0) for n in ZERO]
    out += [('digitValue', P.digitValue, lambda c: -1), ('getAge', lambda c: list(P.getAge(c)), lambda c: [0, 0, 0, 0]),
            ('getNumericValue', P.getNumericValue, lambda c: None), ('getScript', P.getScript, lambda c: -1)]
    out += [(n, getattr(B, n), lambda c: 0) for n in ('getCharDirection', 'getJoiningType', 'getJoiningGroup', 'getPairedBracketType')]
    out += [(n, lambda c, f=getattr(B, n): bool(f(c)), lambda c: False) for n in ('isMirrored', 'isBidiControl', 'isJoinControl')]
    out += [(n, getattr(B, n), lambda c: c) for n in ('getMirror', 'getPairedBracket')]
    out += [(n, getattr(C, n), lambda c: c) for n in ('toLower', 'toUpper', 'toTitle')]
    out += [(n, getattr(L, n), lambda c: 0) for n in ('getInPC', 'getInSC', 'getVO')]
    for form in ('nfc', 'nfkc', 'nfkc_cf'):
        norm = getattr(D, form + 'Trie')
        out += [(f'{form} {n}', getattr(norm, n), lambda c: None) for n in ('getDecomposition', 'getRawDecomposition')]
    for choice in (0, 1, 3, 4):
        out.append((f'getCharName choice {choice}', lambda c, k=choice: names.getCharName(c, k), lambda c: ''))
    return out


def load(ctx):
    global Q
    icudata.overlay(icudata.pack(dict(icudata.system_items())))
    Q = queries()


def folds(c):
    """c is a code point shifted by a power of two, or next to the last code point."""
    return c <= LIMIT + 0x2000 or any(c & ((1 << k) - 1) <= LIMIT for k in range(21, c.bit_length()))


def run(ctx):
    def body(c):
        for name, f, want in Q:
            got, exp = f(c), want(c)
            if got != exp: raise Violation(f'{name}({c:#x}) is {got!r}, a number that is no character answers {exp!r}')
            ctx.count()
        ctx.case(c, folds(c), label='U+110000..U+111FFF' if c <= LIMIT + 0x2000 else 'a code point plus a power of two' if folds(c) else 'other')
    def near():
        for c in range(LIMIT + 1, LIMIT + 1 + ctx.quick(0x1000, 0x10000)):
            ctx.current = c
            body(c)
    ctx.part('the numbers after U+10FFFF', near)
    shifted = st.tuples(env.code_points(), st.sampled_from([1 << k for k in range(21, 34)] + [3 << 21, 0x110000, 0x7fe00000])).map(sum)
    numbers = st.one_of(shifted, st.integers(LIMIT + 1, 0x1fffff), st.integers(LIMIT + 1, 0x7fffffff), st.integers(0x80000000, 1 << 40),
                        st.sampled_from([0x7fffffff, 0xffffffff, 0xfffffffe, 0x80000000, 0x1fffff, 0x200000, 0x3fffff, LIMIT + 1]))
    ctx.given('numbers', numbers.filter(lambda c: c > LIMIT), body, (8000, 300000))
