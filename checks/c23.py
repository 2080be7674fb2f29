"""Bit and surrogate utilities."""
from hypothesis import strategies as st
from vp import env, ucd
from vp.core import Violation

PID = 'C23'
RULE = ('A case is one call of one utility: every code point for the surrogate, noncharacter and pair functions, every pair of surrogates, '
        'every word of small widths and generated wide ones for the shifts. Non-trivial: a surrogate, noncharacter, supplementary code '
        'point, or a word with a bit set.')
ASSUME = ['isSurrogateLead/Trail are asked of surrogates only; arithmeticShift gets a word of the stated width and 1..width bits; highBit at most 64 bits.']


def load(ctx):
    global U
    U = env.mod('Utilities')


def run(ctx):
    truth = lambda v: bool(v)
    R = range(0x110000)
    J = ucd.Job
    def word(c):
        lead, trail = U.surrogatesFromChar(c)
        return lead << 16 | trail
    jobs = [J('isSurrogate', U.isSurrogate, [0xd800 <= c <= 0xdfff for c in R], False, norm=truth),
            J('isLead', U.isLead, [0xd800 <= c <= 0xdbff for c in R], False, norm=truth),
            J('isTrail', U.isTrail, [0xdc00 <= c <= 0xdfff for c in R], False, norm=truth),
            J('isUnicodeNoncharacter', U.isUnicodeNoncharacter, [c & 0xfffe == 0xfffe or 0xfdd0 <= c <= 0xfdef for c in R], False, norm=truth),
            J('surrogatesFromChar', lambda c: word(c) if c >= 0x10000 else None,
              [int.from_bytes(chr(c).encode('utf-16-be'), 'big') if c >= 0x10000 else None for c in R]),
            J('charFromSurrogates', lambda c: U.charFromSurrogates(0xd800 + (c - 0x10000 >> 10), 0xdc00 + (c & 0x3ff)) if c >= 0x10000 else None,
              [c if c >= 0x10000 else None for c in R]),
            J('highBit', U.highBit, [c.bit_length() - 1 if c else None for c in R]),
            J('isSurrogateLead', lambda c: U.isSurrogateLead(c) if 0xd800 <= c <= 0xdfff else False, [0xd800 <= c <= 0xdbff for c in R], False, norm=truth),
            J('isSurrogateTrail', lambda c: U.isSurrogateTrail(c) if 0xd800 <= c <= 0xdfff else False, [0xdc00 <= c <= 0xdfff for c in R], False, norm=truth)]
    for n in jobs: n.what = 'by definition it is'
    ucd.sweep_all(ctx, jobs)

    # beyond the code space nothing is a surrogate or noncharacter
    def beyond(c):
        for f in (U.isSurrogate, U.isLead, U.isTrail, U.isUnicodeNoncharacter):
            if f(c): raise Violation(f'{f.__name__}({c:#x}) holds')
        ctx.case(c, True, label='beyond the code space')
    ctx.given('beyond', st.one_of(st.integers(0x110000, 0x7fffffff), st.sampled_from([0x110000, 0x11fffe, 0x11ffff, 0x1d800, 0x11dc00, 0x11d800, 0xfffffffe, 0xffffffff,
                                                                                      0x80000000 | 0xd800, 0xffffd800, 0x7fff0000 | 0xdc00])), beyond, (300, 3000))

    def shift(t):
        width, bits, v = t
        want = v >> (width - bits)
        if v >> (width - 1) & 1: want -= 1 << bits
        got = U.arithmeticShift(v, width, bits)
        if got != want: raise Violation(f'arithmeticShift({v:#x}, {width}, {bits}) is {got}, the top {bits} bits are {want}')
        ctx.case(('shift', t), v != 0, label='shifts')
    def small():
        for width in range(1, 9):
            for bits in range(1, width + 1):
                for v in range(1 << width): ctx.current = (width, bits, v); shift((width, bits, v))
        for bits in range(1, 17):
            for v in range(0, 1 << 16, 7): ctx.current = (16, bits, v); shift((16, bits, v))
    ctx.part('small words', small)
    @st.composite
    def words(draw):
        w = draw(st.sampled_from([8, 12, 16, 24, 32, 33, 64, 65, 100, 128]))
        return w, draw(st.integers(1, w)), draw(st.one_of(st.integers(0, (1 << w) - 1), st.integers(0, w - 1).map(lambda k: 1 << k), st.integers(0, w - 1).map(lambda k: (1 << k) - 1)))
    ctx.given('wide words', words(), shift, (1000, 20000))

    def high(v):
        want = v.bit_length() - 1 if v else None
        if U.highBit(v) != want: raise Violation(f'highBit({v:#x}) is {U.highBit(v)}, it is {want}')
        ctx.case(('high', v), v != 0, label='high bits')
    def powers():
        for k in range(64):
            for v in {1 << k, (2 << k) - 1, (1 << k) | 1, (1 << k) | (1 << k >> 1)}: ctx.current = hex(v); high(v)
    ctx.part('powers of two', powers)
    ctx.given('high bits', st.one_of(st.integers(0, (1 << 64) - 1), st.integers(0, 63).flatmap(lambda k: st.integers(1 << k, (2 << k) - 1))), high, (1000, 20000))

    def codes(cs):
        want = ', '.join('%04X' % c for c in cs)
        got = U.listOfCodes(cs)
        if got != want: raise Violation(f'listOfCodes({cs}) is {got!r}, expected {want!r}')
        ctx.case(('codes', cs), len(cs) > 1, label='code lists')
    ctx.given('code lists', st.one_of(st.lists(env.code_points(), max_size=8), st.tuples(st.lists(env.code_points(), min_size=1, max_size=5), st.integers(1, 40)).map(lambda t: (t[0] * t[1])[:t[1]])), codes, (300, 3000))
