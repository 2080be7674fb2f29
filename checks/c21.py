"""Layout properties: Indic positional and syllabic category, vertical orientation."""
import multiprocessing as mp, struct
from hypothesis import strategies as st
from vp import core, env, icu, icudata, ucd, utrie2
from vp.core import Violation
from checks import c08, c09

PID = 'C21'
RULE = ('A case is one layout property of one code point of the system ICU data (complete), one enumerated interval of one of its tries, or one '
        'generated ulayout.icu file with its three tries. Non-trivial: the value is not 0 (or the tries have at least 4 ranges).')
ASSUME = ['The data file is rebuilt from libicudata.so.74, with ICU 74 itself as the oracle, or generated in the ulayout.icu format.']
PROPS = (('getInPC', 'inpcTrie', 0x1016), ('getInSC', 'inscTrie', 0x1017), ('getVO', 'voTrie', 0x1018))


def load(ctx):
    global L
    icudata.overlay(icudata.pack(icudata.system_items()))
    L = icudata.mod('LayoutProps')
    c08.CPTrie = icudata.mod('CPTrie').CPTrie


def _icu(t):
    prop, a = t
    f = icu.lib().u_getIntPropertyValue_74
    return [f(c, prop) for c in range(a, a + 0x8000)]


def item(specs, indexes, tail, align=16):
    """A ulayout.icu item holding the three serialised tries."""
    tries = [icu.cptrie_bytes(s['runs'], s['initial'], s['error'], s['kind'], s['width']) for s in specs]
    tries = [t + b'\0' * (-len(t) % align) for t in tries]
    ix, top = [0] * indexes, 4 * indexes
    ix[0] = indexes
    for i, t in enumerate(tries): top += len(t); ix[1 + i] = top
    for i in range(4, 8): ix[i] = top
    ix[9] = 0x12345678
    return icudata.item(b'Layo', struct.pack(f'<{indexes}I', *ix) + b''.join(tries) + bytes(tail))


def run(ctx):
    icu.lib()
    with mp.get_context('fork').Pool(8) as pool:
        want = {p: sum(pool.map(_icu, [(p, a) for a in range(0, 0x110000, 0x8000)]), []) for _, _, p in PROPS}
    ucd.sweep_all(ctx, [ucd.Job(f, getattr(L, f), want[p], 0, what='ICU says') for f, _, p in PROPS])

    runs = {p: utrie2.merge([(c, want[p][c]) for c in range(0x110000) if c == 0 or want[p][c] != want[p][c - 1]]) for _, _, p in PROPS}
    edge = st.one_of(st.integers(0, 0x110000), st.integers(0, 0x3000), st.integers(0, 0x110).map(lambda k: k << 12))
    def intervals(t):
        (f, trie, p), a, b = t
        w = c09.check(getattr(L, trie), runs[p], min(a, b), max(a, b))
        ctx.case(t, len(w) >= 3, label='intervals enumerated')
    ctx.given('enumeration', st.tuples(st.sampled_from(PROPS), edge, edge), intervals, (60, 600))
    for f, trie, p in PROPS:
        ctx.part(f'enumeration of all of {f}', lambda: c09.check(getattr(L, trie), runs[p], 0, 0x110000))

    def body(t):
        specs, indexes, tail, extra, align = t
        items = {'ulayout.icu': item(specs, indexes, tail, align), 'aa.icu': icudata.header(b'None') + b'x'}
        icudata.overlay(icudata.pack(items))
        X = icudata.mod('LayoutProps')
        for (f, trie, _), s in zip(PROPS, specs):
            starts = [r[0] for r in s['runs']]
            import bisect
            for c in c08.points(s['runs'], extra):
                if c > 0x10ffff: continue
                w = s['runs'][bisect.bisect_right(starts, c) - 1][1]
                if getattr(X, f)(c) != w: raise Violation(f'{f}({c:#x}) is {getattr(X, f)(c)}, the file says {w}')
                ctx.count()
        ctx.case(t, all(len(s['runs']) >= 4 for s in specs), label='generated files', sample=f'{[len(s["runs"]) for s in specs]} runs, {indexes} indexes')
    @st.composite
    def three(draw):
        # tries of one shape and length, with other values, are told apart as well
        a = draw(c08.specs())
        like = lambda k: dict(a, runs=[(c, v ^ k) for c, v in a['runs']], initial=a['initial'] ^ k)
        if draw(st.integers(0, 3)): return a, draw(c08.specs()), draw(c08.specs())
        b = draw(st.permutations([a, like(1), like(draw(st.integers(0, 3)))]))
        return tuple(b)
    ctx.given('generated files', st.tuples(three(), st.sampled_from([12, 12, 16]), st.integers(0, 40),
                                           st.lists(st.integers(0, 0x10ffff), max_size=10), st.sampled_from([16, 16, 16, 4])), body, (80, 1500))
