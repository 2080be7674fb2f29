"""Numeric type, numeric value and decimal digit value."""
from fractions import Fraction
from hypothesis import strategies as st
from vp import env, ucd
from vp.core import Violation

PID = 'C11'
RULE = ('A case is one call of one numeric function on one code point, over all of U+0000..U+10FFFF in an order drawn from the seed, '
        'or the decoding of one generated 10-bit encoded value. Non-trivial: the expected answer is a number (or a numeric type).')
ASSUME = ['oracle/unicode13.json.gz gives Unicode 13.', "Encoded values follow ICU's uprops.h (format of Unicode 13)."]


def load(ctx):
    global P
    P = env.mod('CharProps')


def decode(v):
    """The number an encoded numeric type/value stands for, written from the description in ICU's uprops.h."""
    if v == 0: return None
    if v <= 10: return Fraction(v - 1)
    if v <= 20: return Fraction(v - 11)
    if v < 0xb0: return Fraction(v - 21)
    if v < 0x1e0: return Fraction((v >> 4) - 12, (v & 15) + 1)
    if v < 0x300: return Fraction(((v >> 5) - 14) * 10 ** ((v & 31) + 2))
    if v < 0x324: return Fraction(((v >> 2) - 0xbf) * 60 ** ((v & 3) + 1))
    if v < 0x33c: w = v - 0x324; return Fraction(2 * (w & 3) + 1, 20 << (w >> 2))
    if v < 0x34c: w = v - 0x33c; return Fraction(2 * (w & 3) + 1, 32 << (w >> 2))
    return None


def close(got, want):
    """Beyond 2^53 the rounding of intermediate powers of ten is the implementation's business."""
    return got == float(want) if abs(want) <= 2 ** 53 else abs(Fraction(got) - want) <= abs(want) / 10 ** 12


def run(ctx):
    nv = [None if v is None else float(Fraction(v)) for v in ucd.values('nv')]
    nt = ucd.values('nt')
    digit = [int(v) if t == 1 else -1 for t, v in zip(nt, nv)]
    ucd.sweep_all(ctx, [ucd.Job('getNumericValue', P.getNumericValue, nv), ucd.Job('getNumericType', P.getNumericType, nt, 0),
                        ucd.Job('digitValue', P.digitValue, digit, -1)])

    def encoded():
        for v in range(1024):
            for low in (0, 0x3f, 0x15):
                ctx.current = (hex(v), hex(low))
                want = decode(v)
                got = P.numericValueFromProps(v << 6 | low)
                if (got is None) != (want is None) or want is not None and not close(got, want):
                    raise Violation(f'the encoded value {v:#x} decodes to {got}, uprops.h says {want}')
                ctx.case(('encoded', v, low), want is not None, label='encoded values')
    ctx.part('numericValueFromProps', encoded)

    # relations any numeric data must satisfy, on generated code points and on the decimal digit runs
    def relate(c):
        t, v, d = P.getNumericType(c), P.getNumericValue(c), P.digitValue(c)
        if (t == 0) != (v is None): raise Violation(f'U+{c:04X}: numeric type {t}, numeric value {v}')
        if (d >= 0) != (t == 1) or d >= 0 and d != v: raise Violation(f'U+{c:04X}: type {t}, value {v}, digit value {d}')
        if (t == 1) != bool(P.isDigit(c)): raise Violation(f'U+{c:04X}: numeric type {t}, isDigit {P.isDigit(c)}')
        if t == 1:
            z = c - int(v)
            if [P.digitValue(z + k) for k in range(10)] != list(range(10)): raise Violation(f'the ten digits from U+{z:04X} are not 0..9')
        ctx.case(('relations', c), t != 0, label='relations')
    ctx.given('relations', st.one_of(st.sampled_from([c for c in range(0x110000) if nt[c]]), env.code_points()), relate, (1500, 20000))
