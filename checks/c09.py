"""CPTrie enumeration partitions any interval into maximal equal-valued ranges that agree with lookup."""
import bisect, random
from hypothesis import strategies as st
from vp import env, utrie2
from vp.core import Violation
from checks import c08

PID = 'C09'
RULE = ("A case is a trie serialised by ICU's builder (see C08) and an interval [start, limit), enumerated and compared with the "
        'maximal ranges of the map the trie was built from. Non-trivial: at least 3 expected ranges, or an interval starting off a '
        'block edge with at least 2; distinct by trie and interval.')
ASSUME = ['0 <= start and limit <= 0x110000.'] + c08.ASSUME


def load(ctx): c08.load(ctx)


def check(trie, runs, start, limit):
    i = max(0, bisect.bisect_right(runs, start, key=lambda r: r[0]) - 1)
    j = bisect.bisect_left(runs, limit, key=lambda r: r[0])
    want = utrie2.expected_ranges([(a, b, v) for (a, v), b in zip(runs[i:j], [r[0] for r in runs[i + 1:j + 1]] + [0x110000])], start, limit, lambda v: v)
    got = list(trie.enumerator(start, limit))
    shown = [(r.start, r.stop, v) for r, v in got]
    if shown != want or any(r.step != 1 for r, _ in got):
        k = next((i for i, (x, y) in enumerate(zip(shown + [None] * len(want), want + [None] * len(shown))) if x != y), 0)
        h = lambda t: t and (hex(t[0]), hex(t[1]), t[2])
        raise Violation(f'enumerating [{start:#x}, {limit:#x}): range {k} is {h(shown[k]) if k < len(shown) else None}, '
                        f'expected {h(want[k]) if k < len(want) else None}; type {trie.trieType}, highStart {trie.highStart:#x}')
    return want


def run(ctx):
    edge = st.one_of(st.sampled_from([0, 1, 15, 16, 63, 64, 0x1ff, 0x200, 0xfff, 0x1000, 0x1001, 0xd800, 0xdc00, 0xfff0, 0xffff, 0x10000, 0x10001,
                                      0x13fff, 0x14000, 0x10ffff, 0x110000, 0x110000]),
                     st.integers(0, 0x10ffff), st.integers(0, 0x880).map(lambda k: k * 0x200))
    interval = st.one_of(st.just((0, 0x110000)), st.tuples(edge, edge).map(lambda t: tuple(sorted(t))),
                         st.tuples(edge, st.integers(0, 0x1000)).map(lambda t: (t[0], min(t[0] + t[1], 0x110000))))

    @st.composite
    def cases(draw):
        spec = draw(c08.specs())
        # the same data on both sides of the border between the two block sizes
        if draw(st.integers(0, 3)) == 0:
            border = 0x10000 if spec['kind'] == 0 else 0x1000
            v, w = draw(st.integers(0, 3)), draw(st.integers(0, 3))
            runs = spec['runs']
            n = draw(st.sampled_from([16, 16, 32, 20]))
            runs = utrie2.paint(runs, border - 64, border - 64 + n, v)
            runs = utrie2.paint(runs, border - 64 + n, border, w)
            runs = utrie2.paint(runs, border, border + draw(st.sampled_from([16, 16, 32, 64])), v)
            if draw(st.booleans()): runs = utrie2.paint(runs, border + draw(st.integers(16, 600)), 0x110000, w)
            if draw(st.booleans()): runs = utrie2.paint(runs, 0x20003, 0x20005, 9)
            spec = dict(spec, runs=runs)
        ivs = draw(st.lists(interval, min_size=1, max_size=3))
        r = spec['runs']
        k = draw(st.integers(0, len(r) - 1)); d = draw(st.integers(-70, 70))
        a = min(max(r[k][0] + d, 0), 0x10ffff)
        ivs.append((a, min(a + draw(st.one_of(st.integers(0, 90), st.integers(0, 0x2000))), 0x110000)))
        return spec, ivs

    def body(t):
        spec, ivs = t
        trie = c08.trie_of(spec)
        for start, limit in ivs:
            want = check(trie, spec['runs'], start, limit)
            ctx.label('interval ' + ('empty' if start == limit else 'all' if (start, limit) == (0, 0x110000) else 'unaligned start' if start % 16 else 'aligned start'))
            ctx.case((sorted(spec.items(), key=str), start, limit), len(want) >= 3 or start % 16 != 0 and len(want) > 1)
        if list(trie.enumerator()) != list(trie.enumerator(0, 0x110000)): raise Violation('the default interval is not 0..10FFFF')
    ctx.given('enumeration', cases(), body, (400, 6000))

    def rows(seed):
        spec, r = c08.rich(seed)
        trie = c08.trie_of(spec)
        ivs = [(0, 0x110000)]
        for _ in range(6):
            a = min(max(r.choice(spec['runs'])[0] + r.choice([-16, -1, 0, 1, r.randint(-70, 70)]), 0), 0x10ffff)
            ivs.append((a, min(a + r.choice([r.randint(0, 90), r.randint(0, 0x2000), 0x110000]), 0x110000)))
        # a code point or few on their own: at the border of the high range, at the top, at any change
        for a in (trie.highStart, r.randint(trie.highStart, 0x110000), 0x10ffff, *r.sample(spec['runs'], 1)[0][:1]):
            a = min(max(a + r.choice([-1, 0, 0, 1]), 0), 0x10ffff)
            ivs.append((a, min(a + r.choice([1, 1, 2, 3, 17]), 0x110000)))
        for start, limit in ivs:
            try: want = check(trie, spec['runs'], start, limit)
            except Violation:
                def fails(s):
                    try: check(c08.trie_of(s), s['runs'], start, limit)
                    except Violation: return True
                    return False
                spec = utrie2.reduce_runs(spec, fails)
                ctx.current = (spec, [(start, limit)])
                check(c08.trie_of(spec), spec['runs'], start, limit)
                raise
            ctx.case((seed, start, limit), len(want) >= 3, label='rows')
    ctx.many('rows of blocks', rows, (800, 10000))

    def pair(seed):
        # enumerations of two tries of the same shape, and of one trie twice, step by step in turn
        spec, r = c08.rich(seed)
        other = utrie2.flip(spec)
        ctx.current = spec, other
        specs = [spec, other]
        ts = [c08.trie_of(x) for x in specs]
        who, seen = [0, 1, 0], [[], [], []]
        its = [iter(ts[k].enumerator()) for k in who]
        live = [0, 1, 2]
        while live:
            for k in list(live):
                x = next(its[k], None)
                if x is None: live.remove(k)
                else: seen[k].append((x[0].start, x[0].stop, x[1]))
        for k, got in zip(who, seen):
            runs = specs[k]['runs']
            want = utrie2.expected_ranges([(a, b, v) for (a, v), b in zip(runs, [x[0] for x in runs[1:]] + [0x110000])], 0, 0x110000, lambda v: v)
            if got != want:
                i = next(i for i, (x, y) in enumerate(zip(got + [None] * len(want), want + [None] * len(got))) if x != y)
                raise Violation(f'enumerations of two tries in turn: range {i} of trie {k} is {got[i:i + 1]}, expected {want[i:i + 1]}')
        ctx.case((seed, 'pair'), len(spec['runs']) >= 3, label='two tries in turn')
    ctx.many('two tries', pair, (150, 2000))

    def large(t):
        seed, where, kind, width = t
        runs = c08.big(seed, where)
        if width == 2: runs = utrie2.merge([(a, v & 0xff) for a, v in runs])
        spec = dict(runs=runs, initial=0, error=0xbad, kind=kind, width=width)
        trie = c08.trie_of(spec)
        for iv in ((0, 0x110000), (where + 0x1234, min(where + 0x13210, 0x110000))): check(trie, spec['runs'], *iv)
        # from and to anywhere in a block of 18-bit indexes
        r = random.Random(str(t))
        for _ in range(60):
            a = r.choice([where, where + 0x10000, r.choice(runs)[0]]) // 0x200 * 0x200 + r.choice([16 * r.randrange(32), 16 * r.randrange(32), 128 * r.randrange(4), r.randrange(0x200)])
            if a < 0x110000: check(trie, spec['runs'], a, min(a + r.choice([r.randrange(64), r.randrange(0x300), r.randrange(0x300)]), 0x110000))
            ctx.count()
        ctx.case(t, True, label='tries with 18-bit data indexes')
    ctx.given('18-bit indexes', st.tuples(st.integers(0, 99), st.sampled_from(c08.PLACES),
                                          st.integers(0, 1), st.integers(0, 2)), large, (24, 120), shrink=False)
