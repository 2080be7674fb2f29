"""Arabic joining types and groups."""
from hypothesis import strategies as st
from vp import env, ucd
from vp.core import Violation

PID = 'C15'
RULE = ('A case is one call of a joining function on one code point, over all of U+0000..U+10FFFF in an order drawn from the seed. '
        'Non-trivial: the expected value is not non-joining or no joining group.')
ASSUME = ['oracle/unicode13.json.gz gives Unicode 13, with the numbering of ICU\'s enums.']


def load(ctx):
    global B
    B = env.mod('BidiProps')


def run(ctx):
    jt, jg = ucd.values('jt'), ucd.values('jg')
    ucd.sweep_all(ctx, [ucd.Job('getJoiningType', B.getJoiningType, jt, 0), ucd.Job('getJoiningGroup', B.getJoiningGroup, jg, 0)])
    some = [c for c in range(0x110000) if jg[c]]
    edges = sorted({c + d for c in some if not jg[c - 1] or not jg[c + 1] for d in (-2, -1, 0, 1, 2)})
    def relate(c):
        g, t = B.getJoiningGroup(c), B.getJoiningType(c)
        if g != jg[c] or t != jt[c]: raise Violation(f'U+{c:04X}: joining group {g}, type {t}; Unicode 13 says {jg[c]}, {jt[c]}')
        if g and t in (1, 5): raise Violation(f'U+{c:04X} has joining group {g} but joining type {t}')
        ctx.case(c, g != 0, label='group and type together')
    ctx.given('relations', st.one_of(st.sampled_from(some), st.sampled_from(edges), env.code_points()), relate, (1000, 10000))
