"""Enumerating the properties of Unicode 13 over any interval."""
import bisect, random
from fractions import Fraction
from hypothesis import strategies as st
from vp import env, icu, icudata, ucd
from vp.core import Violation

PID = 'C30'
RULE = ('A case is one property enumerated over one interval, the whole code space or a generated one, and compared with the maximal runs of the '
        'Unicode 13 table (or of lookups, for raw trie values). Non-trivial: the interval spans at least 3 runs; distinct by property and interval.')
ASSUME = ['oracle/unicode13.json.gz gives Unicode 13.', 'Raw values and functions of the caller have no table of their own: enumeration is compared with lookup there; layout values are ICU\'s.']


def load(ctx):
    icudata.overlay(icudata.pack(icudata.system_items()))
    global P, B, C, N, H, L
    P, B, C, H = (icudata.mod(m) for m in ('CharProps', 'BidiProps', 'CaseProps', 'uprops_h'))
    N, L = icudata.mod('Normalizer2'), icudata.mod('LayoutProps')


def runs_of(values):
    out, last = [], object()
    for c, v in enumerate(values):
        if c == 0 or v != last: out.append((c, v)); last = v
    return out


def run(ctx):
    pt, vt, bt, ct = P.propsTrie, P.propsVectorTrie, B.bidiPropsTrie, C.casePropsTrie
    num = lambda k: ucd.values(k)
    todo = [('general category', pt, P.generalCategoryFromProps, {}, lambda: num('gc')), ('numeric type', pt, P.numericTypeFromProps, {}, lambda: num('nt')),
            ('numeric value', pt, P.numericValueFromProps, {}, lambda: [None if v is None else float(Fraction(v)) for v in num('nv')]),
            ('bidi class', bt, B.getClassFromProps, {}, lambda: num('bc'))]
    for name, f, k in (('script', 'scriptFromVecIndex', 'script'), ('block', 'blockFromVecIndex', 'block'), ('east Asian width', 'eastAsianWidthFromVecIndex', 'ea'),
                       ('line break', 'lineBreakFromVecIndex', 'lb'), ('sentence break', 'sentenceBreakFromVecIndex', 'sb'), ('word break', 'wordBreakFromVecIndex', 'wb'),
                       ('grapheme cluster break', 'graphemeClusterBreakFromVecIndex', 'gcb'), ('decomposition type', 'decompTypeFromVecIndex', 'dt')):
        todo.append((name, vt, getattr(P, f), {}, lambda k=k: num(k)))
    for k in sorted(ucd.data()['ranges']):
        if k.startswith('bin_'): todo.append((k[4:], vt, P.binaryPropFromVecIndex, dict(propShift=getattr(H, 'UPROPS_' + k[4:]), column=1), lambda k=k: [bool(v) for v in num(k)]))
        if k.startswith('emoji_'): todo.append((k[6:], vt, P.binaryPropFromVecIndex, dict(propShift=getattr(H, 'UPROPS_2_' + k[6:]), column=2), lambda k=k: [bool(v) for v in num(k)]))
    for k, s in (('bidic', B.UBIDI_BIDI_CONTROL_SHIFT), ('joinc', B.UBIDI_JOIN_CONTROL_SHIFT), ('bidim', B.UBIDI_IS_MIRRORED_SHIFT)):
        todo.append((k, bt, B.getFlagFromProps, dict(shift=s), lambda k=k: [bool(v) for v in num(k)]))
    raw = lambda t: lambda: [t.get(c) for c in range(0x110000)]
    for n, t in (('propsTrie', pt), ('propsVectorTrie', vt), ('bidiPropsTrie', bt), ('casePropsTrie', ct)): todo.append((n, t, None, {}, raw(t)))
    for n in ('nfcTrie', 'nfkcTrie', 'nfkc_cfTrie'): todo.append((n, getattr(N, n).trie, None, None, raw(getattr(N, n).trie)))
    # what the other functions make of the stored values, and functions of the user's own
    def mapped(t, f, more):
        memo = {}
        def one(v):
            if v not in memo: memo[v] = f(v, **more)
            return memo[v]
        return lambda: [one(t.get(c)) for c in range(0x110000)]
    for name, t, f, more in [('numeric type value', pt, P.numericTypeValueFromProps, {}), ('case type', ct, C.getTypeFromProps, {}), ('case type and ignorable', ct, C.getTypeAndIgnorableFromProps, {}),
                             ('upper or title', ct, C.isUpperOrTitle, {}), ('case exception', ct, C.hasException, {}), ('case delta', ct, C.getDeltaFromProps, {}),
                             ('mirror delta', bt, B.getMirrorDeltaFromProps, {}), *((f'column {k}', vt, P.unicodePropertiesFromVecIndex, dict(column=k)) for k in (0, 1, 2)),
                             ('a letter', pt, lambda v: P.generalCategoryFromProps(v) in (1, 2, 3, 4, 5), {}), ('no value', vt, lambda v: None, {}),
                             ('a string or none', bt, lambda v, sep: None if v & 1 else sep.join(map(str, divmod(v, 32))), dict(sep='/'))]:
        todo.append((name, t, f, more, mapped(t, f, more)))
    todo.append(('age', vt, lambda v: P.ageFromProps(P.unicodePropertiesFromVecIndex(v, 0)), {}, lambda: [[*v, 0, 0] for v in num('age')]))
    for n, p in (('inpcTrie', 0x1016), ('inscTrie', 0x1017), ('voTrie', 0x1018)):
        todo.append((n, getattr(L, n), None, None, lambda p=p: [icu.lib().u_getIntPropertyValue_74(c, p) for c in range(0x110000)]))
    table = {}

    def runs(i):
        if i not in table: r = runs_of(todo[i][4]()); table[i] = ([a for a, _ in r], r)
        return table[i]

    def compare(i, start, limit):
        name, trie, f, more, _ = todo[i]
        starts, r = runs(i)
        if more is None: got = trie.enumerator(start, limit)
        elif f is None: got = trie.enumerator(start, limit)
        else: got = trie.enumerator(start=start, limit=limit, valueFunction=f, **more)
        k = max(bisect.bisect_right(starts, start) - 1, 0)
        n, at = 0, start
        for rng, v in got:
            if at >= limit: raise Violation(f'{name} over [{start:#x}, {limit:#x}): a range {rng} after the end')
            b = min(starts[k + 1] if k + 1 < len(starts) else 0x110000, limit)
            if (rng.start, rng.stop, rng.step) != (at, b, 1) or v != r[k][1]:
                raise Violation(f'{name} over [{start:#x}, {limit:#x}): got {v!r} for U+{rng.start:04X}..{rng.stop - 1:04X}, expected {r[k][1]!r} for U+{at:04X}..{b - 1:04X}')
            at, k, n = b, k + 1, n + 1
        if at != limit and start < limit: raise Violation(f'{name} over [{start:#x}, {limit:#x}) ends before U+{at:04X}')
        ctx.case((name, start, limit), n >= 3, sample=f'{name} over U+{start:04X}..{limit - 1:04X}: {n} ranges', label='runs ' + ('whole' if limit - start == 0x110000 else 'interval'))

    for i, t in enumerate(todo):
        ctx.current = t[0]
        ctx.part(t[0], compare, i, 0, 0x110000)
    if ctx.violations: return

    edge = st.one_of(st.sampled_from([0, 0x20, 0x7f, 0x80, 0x7ff, 0x800, 0xabff, 0xac00, 0xd7a3, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfff0, 0xffff, 0x10000, 0x1ffff, 0x20000, 0x2fa1d, 0xe0100,
                                      0xe01f0, 0x10ffff, 0x110000]), env.code_points(), st.integers(0, 0x220).map(lambda k: k * 0x800), st.integers(0, 0x8800).map(lambda k: k * 32))

    @st.composite
    def cases(draw):
        i = draw(st.integers(0, len(todo) - 1))
        starts = runs(i)[0]
        def point():
            if draw(st.booleans()): return min(max(starts[draw(st.integers(0, len(starts) - 1))] + draw(st.integers(-2, 2)), 0), 0x110000)
            return draw(edge)
        a = point()
        if draw(st.booleans()): b = min(a + draw(st.one_of(st.integers(0, 100), st.integers(0, 0x2000))), 0x110000)
        else: b = point()
        return i, min(a, b), max(a, b)
    ctx.given('intervals', cases(), lambda t: compare(*t), (1500, 30000))

    # short intervals that start or end at, or next to, any edge of the structure or the surrogates
    edges = sorted({x + d for x in [*range(0xd000, 0xe801, 0x40), *range(0, 0x2001, 0x200), *range(0xf800, 0x11001, 0x200), 0x1fffe, 0x20000, 0x30000, 0xe0000, 0xe0200, 0xe1000, 0x10fe00, 0x110000]
                    for d in (-1, 0, 1, 17) if 0 <= x + d <= 0x110000})

    def near(seed):
        r = random.Random(seed)
        e, n = r.choice(edges), r.choice([1, 2, 15, 31, 33, 64, 0x400, 0x801, 0x2100])
        a, b = (e, e + n) if r.random() < .5 else (e - n, e)
        compare(r.randrange(len(todo)), max(a, 0), min(b, 0x110000))
    ctx.many('structural edges', near, (6000, 100000))

    # functions made for one enumeration and dropped after it, as lambdas are, with arguments of the same or other names
    class Low:
        def __init__(self, n): self.n = n
        def __call__(self, v): return v % self.n
        def part(self, v): return v // self.n

    def make(kind, n):
        if kind == 'lambda': return lambda v: v % n, {}
        if kind == 'default': return lambda v, n=n: v % n, {}
        if kind == 'keyword': return lambda v, a, b=1: (v >> b) % a, dict(a=n)
        if kind == 'other keyword': return lambda v, a, b=1: (v >> b) % a, dict(b=n % 5, a=3)
        if kind == 'object': return Low(n), {}
        if kind == 'method': return Low(n).part, {}
        return ([str, bool, float, hex][n % 4], {})
    kinds = ['lambda', 'lambda', 'default', 'keyword', 'other keyword', 'object', 'method', 'built in']
    utries = [i for i, t in enumerate(todo) if t[0] in ('propsTrie', 'propsVectorTrie', 'bidiPropsTrie', 'casePropsTrie')]

    def functions(seed):
        r = random.Random(seed)
        i, kind = r.choice(utries), r.choice(kinds)
        starts, base = runs(i)
        done = []
        for _ in range(r.randint(2, 6)):
            n = r.choice([1, 2, 3, 5, 7, 16, 31])
            a = r.choice(starts) if r.random() < .5 else 0
            b = min(a + r.choice([0x100, 0x1000, 0x3000]), 0x110000)
            done.append((n, a, b))
            f, more = make(kind if r.random() < .8 else r.choice(kinds), n)
            it = todo[i][1].enumerator(a, b, f, **more)
            if r.random() < .2:   # some are given up
                for _ in zip(range(3), it): pass
                del it, f
                continue
            got = [(x.start, x.stop, v) for x, v in it]
            want = []
            for k in range(bisect.bisect_right(starts, a) - 1, bisect.bisect_left(starts, b)):
                v, lo, hi = f(base[k][1], **more), max(starts[k], a), min(starts[k + 1] if k + 1 < len(starts) else 0x110000, b)
                if want and want[-1][2] == v: want[-1] = (want[-1][0], hi, v)
                else: want.append((lo, hi, v))
            if got != want:
                raise Violation(f'{todo[i][0]} enumerated with functions made in turn ({kind}, {done} of (number, start, limit)): got {got[:3]}..., expected {want[:3]}...')
            ctx.count()
            del it, f, more
        ctx.case((seed, 'functions'), True, label='functions made in turn')
    ctx.many('functions', functions, (300, 6000))
