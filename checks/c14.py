"""Bidirectional properties: class, mirroring, brackets, controls."""
from hypothesis import strategies as st
from vp import env, ucd
from vp.core import Violation

PID = 'C14'
RULE = ('A case is one call of one bidi function on one code point, over all of U+0000..U+10FFFF in an order drawn from the seed. '
        'Non-trivial: the expected value is not L, False, the code point itself, or none.')
ASSUME = ['oracle/unicode13.json.gz gives Unicode 13, with the numbering of ICU\'s enums.']


def load(ctx):
    global B
    B = env.mod('BidiProps')


def run(ctx):
    J, V = ucd.Job, ucd.values
    truth = lambda v: int(bool(v))
    # mappings are compared as distances so that "maps to itself" is one default value
    ucd.sweep_all(ctx, [
        J('getCharDirection', B.getCharDirection, V('bc'), 0), J('isMirrored', B.isMirrored, V('bidim'), 0, norm=truth),
        J('getMirror', lambda c: B.getMirror(c) - c, V('mirror'), 0), J('getPairedBracketType', B.getPairedBracketType, V('bpt'), 0),
        J('getPairedBracket', lambda c: B.getPairedBracket(c) - c, V('bpb'), 0), J('isBidiControl', B.isBidiControl, V('bidic'), 0, norm=truth),
        J('isJoinControl', B.isJoinControl, V('joinc'), 0, norm=truth)])

    special = [c for c in range(0x110000) if V('mirror')[c] or V('bpt')[c] or V('bidim')[c]]
    def relate(c):
        m, p = B.getMirror(c), B.getPairedBracket(c)
        if B.getMirror(m) != c: raise Violation(f'the mirror of U+{c:04X} is U+{m:04X}, whose mirror is U+{B.getMirror(m):04X}')
        if m != c and not (B.isMirrored(c) and B.isMirrored(m)): raise Violation(f'U+{c:04X} has a mirror but is not mirrored')
        t = B.getPairedBracketType(c)
        if (t == 0) != (p == c): raise Violation(f'U+{c:04X}: bracket type {t}, paired bracket U+{p:04X}')
        if t and (B.getPairedBracket(p) != c or B.getPairedBracketType(p) != 3 - t): raise Violation(f'U+{c:04X} and its paired bracket U+{p:04X} do not pair up')
        ctx.case(c, m != c or t != 0, label='relations')
    ctx.given('relations', st.one_of(st.sampled_from(special), env.code_points()), relate, (1000, 10000))
