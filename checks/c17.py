"""Full (string) case mappings."""
from hypothesis import strategies as st
from vp import env, ucd
from vp.core import Violation

PID = 'C17'
RULE = ('A case is one full case mapping of one code point, over all of U+0000..U+10FFFF in an order drawn from the seed, or one generated '
        'string mapped character by character. Non-trivial: the expected mapping differs from the character.')
ASSUME = ['oracle/unicode13.json.gz gives Unicode 13; mappings are the unconditional, locale-independent ones of SpecialCasing.txt.']


def load(ctx):
    global C
    C = env.mod('CaseProps')


def run(ctx):
    maps = {n: ucd.strings(n) for n in ('lc', 'uc', 'tc')}
    fns = {'lc': C.toFullLower, 'uc': C.toFullUpper, 'tc': C.toFullTitle}
    # None stands for "maps to itself"
    jobs = []
    for n, f in fns.items():
        want = [None] * 0x110000
        for c, s in maps[n].items(): want[c] = s
        def g(c, f=f):
            r = f(c)
            return None if r == chr(c) else r
        jobs.append(ucd.Job(f.__name__, g, want, None))
    ucd.sweep_all(ctx, jobs)

    special = sorted(c for m in maps.values() for c, s in m.items() if len(s) > 1)
    cased = sorted({c for m in maps.values() for c in m})
    import unicodedata
    def relate(cs):
        for c in cs:
            for n, f in fns.items():
                r = f(c)
                if r != maps[n].get(c, chr(c)): raise Violation(f'{f.__name__}(U+{c:04X}) is {r!r}, Unicode 13 says {maps[n].get(c, chr(c))!r}')
            # a simple mapping, where it exists, is used unless there is a full one
            for s, f in ((C.toLower, C.toFullLower), (C.toUpper, C.toFullUpper), (C.toTitle, C.toFullTitle)):
                if len(f(c)) == 1 and f(c) != chr(s(c)): raise Violation(f'{f.__name__}(U+{c:04X}) is {f(c)!r} but {s.__name__} gives U+{s(c):04X}')
        ctx.case(cs, any(c in maps[n] for n in maps for c in cs), label='strings')
    ctx.given('strings', st.lists(st.one_of(st.sampled_from(special), st.sampled_from(cased), env.code_points()), min_size=1, max_size=12), relate, (600, 6000))
