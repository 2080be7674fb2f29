"""Binary properties and emoji properties."""
from hypothesis import strategies as st
from vp import env, ucd
from vp.core import Violation

PID = 'C13'
RULE = ('A case is one binary property asked of one code point, over all of U+0000..U+10FFFF in an order drawn from the seed for each of '
        'the 38 properties. Non-trivial: the property holds for the code point.')
ASSUME = ['oracle/unicode13.json.gz gives Unicode 13.', 'Properties are selected by their UPROPS_ constants.']


def load(ctx):
    global P, H
    P, H = env.mod('CharProps'), env.mod('uprops_h')


def run(ctx):
    jobs = []
    for k in sorted(ucd.data()['ranges']):
        if k.startswith('bin_'):
            shift = getattr(H, 'UPROPS_' + k[4:])
            jobs.append(ucd.Job(f'getBinaryProp({k[4:]})', lambda c, s=shift: P.getBinaryProp(c, s), ucd.values(k), 0, norm=lambda v: int(bool(v))))
    for k, f in (('EXTENDED_PICTOGRAPHIC', 'isExtendedPictograph'), ('EMOJI_COMPONENT', 'isEmojiComponent'), ('EMOJI', 'isEmoji'),
                 ('EMOJI_PRESENTATION', 'isEmojiPresentation'), ('EMOJI_MODIFIER', 'isEmojiModifier'), ('EMOJI_MODIFIER_BASE', 'isEmojiModifierBase')):
        jobs.append(ucd.Job(f, getattr(P, f), ucd.values('emoji_' + k), 0, norm=lambda v: int(bool(v))))
    ucd.sweep_all(ctx, jobs)

    shifts = {getattr(H, 'UPROPS_' + k[4:]): k for k in ucd.data()['ranges'] if k.startswith('bin_')}
    def words(t):
        c, shift, col = t
        # a whole column read at once has exactly the bits of the single properties
        w = P.getUnicodeProperties(c, 1)
        want = sum(1 << s for s, k in shifts.items() if ucd.values(k)[c])
        if w != want: raise Violation(f'property column 1 of U+{c:04X} is {w:#x}, its properties make {want:#x}')
        if P.getUnicodeProperties(c, 3 + col) != 0: raise Violation(f'column {3 + col} of U+{c:04X} does not exist and reads {P.getUnicodeProperties(c, 3 + col):#x}')
        if P.getBinaryProp(c, 32 + shift): raise Violation(f'property {32 + shift} of U+{c:04X} does not exist and holds')
        ctx.case(t, want != 0, label='whole columns')
    ctx.given('columns', st.tuples(env.code_points(), st.integers(0, 40), st.integers(0, 5)), words, (1500, 20000))
