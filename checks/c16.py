"""Simple (one to one) case mappings."""
from hypothesis import strategies as st
from vp import env, ucd
from vp.core import Violation

PID = 'C16'
RULE = ('A case is one simple case mapping of one code point, over all of U+0000..U+10FFFF in an order drawn from the seed, or one '
        'generated relation between mappings. Non-trivial: the expected mapping differs from the code point.')
ASSUME = ['oracle/unicode13.json.gz gives Unicode 13.']


def load(ctx):
    global C
    C = env.mod('CaseProps')


def run(ctx):
    d = {n: ucd.values(n) for n in ('slc', 'suc', 'stc')}
    ucd.sweep_all(ctx, [ucd.Job(f.__name__, lambda c, f=f: f(c) - c, d[n], 0) for n, f in (('slc', C.toLower), ('suc', C.toUpper), ('stc', C.toTitle))])
    cased = [c for c in range(0x110000) if any(d[n][c] for n in d)]
    def relate(c):
        lo, up, ti = C.toLower(c), C.toUpper(c), C.toTitle(c)
        for f, a, b in ((C.toLower, lo, 'toLower'), (C.toUpper, up, 'toUpper'), (C.toTitle, ti, 'toTitle')):
            if f(a) != a and c != 0x1e9e and a != c: raise Violation(f'{b}(U+{c:04X}) is U+{a:04X}, which {b} maps on to U+{f(a):04X}')
        if (lo, up, ti) != (c + d['slc'][c], c + d['suc'][c], c + d['stc'][c]): raise Violation(f'U+{c:04X}: mappings {lo:#x} {up:#x} {ti:#x}')
        ctx.case(c, (lo, up, ti) != (c, c, c), label='relations')
    ctx.given('relations', st.one_of(st.sampled_from(cased), st.sampled_from(cased), env.code_points()), relate, (1500, 15000))
