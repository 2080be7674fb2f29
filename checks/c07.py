"""UTrie2 enumeration partitions any interval into maximal equal-valued ranges that agree with lookup."""
import bisect, random
from hypothesis import strategies as st
from vp import env, utrie2
from vp.core import Violation

PID = 'C07'
RULE = ('A case is a generated UTrie2 (see C06), an interval [start, limit) and a value function, enumerated and compared with the '
        'maximal ranges of the map the trie was built from. Non-trivial: the interval contains at least 3 ranges of the expected '
        'answer or starts or ends off a block edge; distinct by trie, interval and function.')
ASSUME = ['0 <= start and limit <= 0x110000; the value function is pure.',
          'The trie is given the initial value its null data block holds.']

FUNCS = {'identity': None, 'low bit': lambda v: v & 1, 'constant': lambda v: 7, 'text': lambda v: f'<{v}>', 'list': lambda v: [v // 2, 0],
         'shifted': None}


def load(ctx):
    global UTrie2
    UTrie2 = env.mod('Utrie2').UTrie2


def run(ctx):
    edge = st.one_of(st.sampled_from([0, 1, 31, 32, 0x7ff, 0x800, 0x801, 0xd7ff, 0xd800, 0xd801, 0xd900, 0xdbff, 0xdc00, 0xdc01, 0xdd00, 0xdfff,
                                      0xe000, 0xfff0, 0xffff, 0x10000, 0x10001, 0x107ff, 0x10800, 0x10ffff, 0x110000, 0x110000]),
                     st.integers(0, 0x10ffff), st.integers(0, 0x220).map(lambda k: k * 0x800))
    interval = st.one_of(st.just((0, 0x110000)), st.tuples(edge, edge).map(lambda t: tuple(sorted(t))),
                         st.tuples(edge, st.integers(0, 0x1000)).map(lambda t: (t[0], min(t[0] + t[1], 0x110000))))

    @st.composite
    def cases(draw):
        spec = draw(utrie2.specs())
        ivs = draw(st.lists(interval, min_size=1, max_size=3))
        r = spec['runs']
        k = draw(st.integers(0, len(r) - 1)); d = draw(st.integers(-40, 40))
        a = min(max(r[k][0] + d, 0), 0x10ffff)
        ivs.append((a, min(a + draw(st.one_of(st.integers(0, 90), st.integers(0, 0x2000))), 0x110000)))
        return spec, ivs, draw(st.sampled_from(sorted(FUNCS)))

    def one(b, trie, start, limit, fn):
        if fn == 'shifted':
            f = lambda v: (v >> 1) & 3
            got = list(trie.enumerator(start, limit, lambda v, shift, mask: (v >> shift) & mask, shift=1, mask=3))
        else:
            f = FUNCS[fn] or (lambda v: v)
            got = list(trie.enumerator(start=start, limit=limit, valueFunction=FUNCS[fn]) if FUNCS[fn] else trie.enumerator(start, limit))
        i = max(0, bisect.bisect_right(b.runs, start, key=lambda r: r[0]) - 1)
        want = utrie2.expected_ranges(b.runs[i:bisect.bisect_left(b.runs, limit, key=lambda r: r[0])], start, limit, f)
        shown = [(r.start, r.stop, v) for r, v in got]
        if shown != want or any(r.step != 1 for r, _ in got):
            k = next((i for i, (x, y) in enumerate(zip(shown + [None] * len(want), want + [None] * len(shown))) if x != y), 0)
            h = lambda t: t and (hex(t[0]), hex(t[1]), t[2])
            raise Violation(f'enumerating [{start:#x}, {limit:#x}) with {fn}: range {k} is {h(shown[k]) if k < len(shown) else None}, '
                            f'expected {h(want[k]) if k < len(want) else None}; highStart={b.high_start:#x}')
        return want

    def body(t):
        spec, ivs, fn = t
        b = utrie2.build(**spec)
        trie = b.make(UTrie2)
        for start, limit in ivs:
            want = one(b, trie, start, limit, fn)
            ctx.label('interval ' + ('empty' if start == limit else 'all' if (start, limit) == (0, 0x110000) else 'unaligned start' if start % 32 else 'aligned start'))
            ctx.case((sorted(spec.items(), key=str), start, limit, fn), len(want) >= 3 or start % 32 != 0 and len(want) > 1)
        if list(trie.enumerator()) != list(trie.enumerator(0, 0x110000)): raise Violation('the default interval is not 0..10FFFF')
    ctx.given('enumeration', cases(), body, (250, 5000))

    def rows(seed):
        r = random.Random(seed)
        spec = utrie2.rich(seed)
        b = utrie2.build(**spec)
        trie = b.make(UTrie2)
        ivs = [(0, 0x110000)]
        for _ in range(6):
            a = min(max(r.choice(spec['runs'])[0] + r.choice([-32, -1, 0, 1, r.randint(-70, 70)]), 0), 0x10ffff)
            ivs.append((a, min(a + r.choice([r.randint(0, 90), r.randint(0, 0x2000), 0x110000]), 0x110000)))
        # a code point or few on their own: at the border of the high range, at the top, at any change
        for a in (trie.highStart, r.randint(trie.highStart, 0x110000), 0x10ffff, *r.sample(spec['runs'], 1)[0][:1]):
            a = min(max(a + r.choice([-1, 0, 0, 1]), 0), 0x10ffff)
            ivs.append((a, min(a + r.choice([1, 1, 2, 3, 17]), 0x110000)))
        for start, limit in ivs:
            fn = r.choice(['identity', 'identity', 'identity', 'low bit', 'shifted'])
            try: want = one(b, trie, start, limit, fn)
            except Violation as e:
                def fails(s):
                    try:
                        nb = utrie2.build(**s)
                        one(nb, nb.make(UTrie2), start, limit, fn)
                    except Violation: return True
                    return False
                spec = utrie2.reduce_runs(spec, fails)
                nb = utrie2.build(**spec)
                ctx.current = (spec, [(start, limit)], fn)
                one(nb, nb.make(UTrie2), start, limit, fn)
                raise e
            ctx.label(f'rows, {fn}')
            ctx.case((seed, start, limit, fn), len(want) >= 3)
    ctx.many('rows of blocks', rows, (1200, 12000))

    def pair(seed):
        # enumerations of two tries of the same shape, and of one trie twice, step by step in turn
        spec = utrie2.rich(seed)
        other = utrie2.flip(spec)
        ctx.current = spec, other
        bs = [utrie2.build(**x) for x in (spec, other)]
        ts = [b.make(UTrie2) for b in bs]
        who, seen = [0, 1, 0], [[], [], []]
        its = [iter(ts[k].enumerator()) for k in who]
        live = [0, 1, 2]
        while live:
            for k in list(live):
                x = next(its[k], None)
                if x is None: live.remove(k)
                else: seen[k].append((x[0].start, x[0].stop, x[1]))
        for k, got in zip(who, seen):
            want = utrie2.expected_ranges(bs[k].runs, 0, 0x110000, lambda v: v)
            if got != want:
                i = next(i for i, (x, y) in enumerate(zip(got + [None] * len(want), want + [None] * len(got))) if x != y)
                raise Violation(f'enumerations of two tries in turn: range {i} of trie {k} is {got[i:i + 1]}, expected {want[i:i + 1]}')
        ctx.case((seed, 'pair'), len(spec['runs']) >= 3, label='two tries in turn')
    ctx.many('two tries', pair, (150, 2000))

    def dense(seed):
        spec = utrie2.dense(seed)
        b = utrie2.build(**spec)
        trie = b.make(UTrie2)
        a = spec['runs'][len(spec['runs']) // 2][0]
        for start, limit in ((0, 0x110000), (a - 5, min(a + 0x5003, 0x110000))): one(b, trie, start, limit, 'identity')
        r = random.Random(seed)
        for _ in range(60):
            a = r.choice(spec['runs'])[0]
            a = min(max(0, r.choice([a, a & ~31, a & ~0x7ff]) + r.choice([0, 0, 32 * r.randrange(64), r.randrange(-40, 0x800)])), 0x10ffff)
            one(b, trie, a, min(a + r.choice([r.randrange(100), r.randrange(0x1000)]), 0x110000), r.choice(['identity', 'shifted']))
            ctx.count()
        ctx.case(seed, True, label='dense tries')
    ctx.many('dense', dense, (3, 60))
