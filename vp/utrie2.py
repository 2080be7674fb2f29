"""A builder of 16-bit UTrie2 structures (layout of ICU utrie2.h), used to generate well-formed tries."""

from . import words

S1, S2 = 11, 5
TRIES = 'UnicodeData/Utrie2.py', 'UnicodeData/CPTrie.py'


class Built:
    """index array plus the constructor arguments of a UTrie2, and the value every code point must have."""
    def __init__(self, **k): self.__dict__.update(k)

    def make(self, UTrie2, pass_initial=True):
        a = (list(self.index), self.index_length, self.index2_null, self.data_null, self.high_start, self.high_value_index)
        return UTrie2(*a, self.initial) if pass_initial else UTrie2(*a)


def build(runs, initial, error, units=None, high_extra=0, overlap=True, i2null=True):
    """runs: [(start, value)] ascending from 0, the code point values; units: {offset in D800..DBFF block: value} of lead
    surrogate code units (only sharing the arrays; code point lookups must not see them)."""
    assert runs[0][0] == 0
    vals = []
    for (a, v), (b, _) in zip(runs, runs[1:] + [(0x110000, None)]): vals.append((a, b, v))
    high_value = vals[-1][2]
    last = vals[-1][0]
    if units: last = max(last, 0xdc00)
    high_start = min(((last + 0x7ff) >> S1 << S1) + (high_extra << S1), 0x110000)

    starts = [a for a, b, v in vals]
    import bisect
    def block_values(c):
        """The 32 values from c on."""
        i = bisect.bisect_right(starts, c) - 1
        if vals[i][1] >= c + 32: return (vals[i][2],) * 32
        out = []
        for x in range(c, c + 32):
            while vals[i][1] <= x: i += 1
            out.append(vals[i][2])
        return tuple(out)

    # which data blocks are needed
    bmp = [block_values(c) for c in range(0, 0x10000, 32)]
    lscp = bmp[0xd800 >> S2:0xdc00 >> S2]
    for j in range(32):
        base = [initial] * 32
        for k, v in (units or {}).items():
            if k >> 5 == j: base[k & 31] = v
        bmp[(0xd800 >> S2) + j] = tuple(base)
    null = (initial,) * 32
    supp_entries = max(0, (high_start - 0x10000) >> S1)
    supp = []
    const_entries = {}
    def const_entry(v):
        if v not in const_entries: const_entries[v] = [(v,) * 32] * 64
        return const_entries[v]
    for e in range(supp_entries):
        c = 0x10000 + (e << S1)
        i = bisect.bisect_right(starts, c) - 1
        if vals[i][1] >= c + 0x800: supp.append(const_entry(vals[i][2]))
        else: supp.append([block_values(x) for x in range(c, c + 0x800, 32)])

    # data: linear ASCII, bad UTF-8 block, null block, others with overlaps at granularity 4
    data = [v for blk in bmp[:4] for v in blk] + [error] * 64
    where = {}
    # ASCII blocks are linear and found first
    for j in range(4): where.setdefault(bmp[j], j * 32)
    data_null_local = len(data)
    data += list(null)
    where[null] = data_null_local
    def place(blk):
        if blk in where: return where[blk]
        at = len(data)
        if overlap:
            for n in range(28, 0, -4):
                if tuple(data[-n:]) == blk[:n] and len(data) - n >= 0xc0:
                    at = len(data) - n
                    break
        del data[at:]
        data.extend(blk)
        where[blk] = at
        return at
    bmp_off = [j * 32 if j < 4 else place(b) for j, b in enumerate(bmp)]
    lscp_off = [place(b) for b in lscp]
    seen_entries = {}
    def place_entry(ent):
        key = (ent[0],) if ent.count(ent[0]) == 64 else tuple(ent)
        if key not in seen_entries: seen_entries[key] = [place(b) for b in ent]
        return seen_entries[key]
    supp_off = [place_entry(ent) for ent in supp]
    while len(data) % 4: data.append(initial)
    high_local = len(data)
    data += [high_value] + [initial] * 3

    # index-2 blocks of the supplementary planes
    i2, i2where = [], {}
    index_1_at = 0x840
    i2_base = index_1_at + supp_entries
    null_off = None
    if i2null and supp_entries:
        i2where[(data_null_local,) * 64] = 0
        i2 += [data_null_local] * 64
        null_off = 0
    index1 = []
    linear = bmp_off + lscp_off
    def in_linear(key):
        at = -1
        while True:
            try: at = linear.index(key[0], at + 1, len(linear) - 63)
            except ValueError: return None
            if tuple(linear[at:at + 64]) == key: return at
    for ent in supp_off:
        key = tuple(ent)
        if key not in i2where and overlap and (at := in_linear(key)) is not None: i2where[key] = at - i2_base
        if key not in i2where:
            at = len(i2)
            if overlap:
                for n in range(63, 0, -1):
                    if tuple(i2[-n:]) == key[:n]:
                        at = len(i2) - n
                        break
            del i2[at:]
            i2.extend(key)
            i2where[key] = at
        index1.append(i2where[key])
    length = i2_base + len(i2)
    pad = -length % 4
    index_length = length + pad
    off = lambda d: (d + index_length) >> 2
    index = ([off(d) for d in bmp_off] + [off(d) for d in lscp_off] +
             [index_length + place(bmp[(0x40 * j) >> S2] if j >= 2 else null) for j in range(32)] +
             [i2_base + x for x in index1] + [off(d) for d in i2] + [0xffff] * pad)
    assert len(index) == index_length and len(data) + index_length <= 0xffff * 4, (len(index), len(data))
    return Built(index=index + data, index_length=index_length,
                 index2_null=i2_base + null_off if null_off is not None else 0xffff,
                 data_null=index_length + data_null_local, high_start=high_start, high_value_index=index_length + high_local,
                 initial=initial, error=error, runs=vals, blocks=len(where), supp=supp_entries)


def value_at(b, c):
    if c > 0x10ffff: return b.error
    import bisect
    return b.runs[bisect.bisect_right([r[0] for r in b.runs], c) - 1][2]


def expected_ranges(runs, start, limit, f):
    """The maximal ranges [start, limit) splits into by f(value)."""
    out = []
    for a, b, v in runs:
        a, b = max(a, start), min(b, limit)
        if a >= b: continue
        w = f(v)
        if out and out[-1][1] == a and out[-1][2] == w: out[-1][1] = b
        else: out.append([a, b, w])
    return [tuple(x) for x in out]


def paint(runs, a, b, v):
    """runs with a..b-1 set to v."""
    out, tail = [], None
    for s, w in runs:
        if s <= b: tail = w
    for s, w in runs:
        if s < a: out.append((s, w))
    out.append((a, v))
    if b < 0x110000: out.append((b, tail))
    out += [(s, w) for s, w in runs if s > b]
    return merge(out)


def merge(runs):
    out = []
    for s, v in runs:
        if not out or out[-1][1] != v: out.append((s, v))
    return out


def tape(draw, runs, initial, pos, value, size, group):
    """runs with a row of blocks painted: a few kinds of block of `size` code points, in a drawn order with repetitions."""
    from hypothesis import strategies as st
    kinds = [[(0, initial)]]
    for _ in range(draw(st.integers(1, 3))):
        at = draw(st.one_of(st.sampled_from([0, 1, 2, 3, size - 4, size - 2, size - 1]), st.integers(0, size - 1)))
        kinds.append(sorted({0: draw(value), at: draw(value), **({draw(st.integers(0, size - 1)): draw(value)} if draw(st.integers(0, 3)) == 0 else {})}.items()))
    row = []
    for k in draw(st.lists(st.integers(0, len(kinds) - 1), min_size=2, max_size=8)): row += [k] * draw(st.sampled_from([1, 1, 2, 2, 3]))
    where = draw(st.integers(0, 3))
    base = draw(pos)
    if where == 0: base = base & ~(size - 1)
    elif where == 1: base = base & ~(group - 1)
    elif where == 2: base = (base & ~(group - 1)) - len(row) * size
    else: base = (base & ~(group - 1)) - draw(st.integers(1, len(row))) * size
    base = max(base, 0)
    for i, k in enumerate(row):
        a = base + i * size
        if a + size > 0x110000: break
        ends = [o for o, _ in kinds[k][1:]] + [size]
        for (o, v), e in zip(kinds[k], ends): runs = paint(runs, a + o, a + e, v)
    return runs


def specs(block=32, group=0x800):
    """A strategy for tries: (runs, initial, error, units, extra, overlap, i2null)."""
    from hypothesis import strategies as st
    anchors = [0, 0x60, 0x80, 0x7e0, 0x800, 0xd000, 0xd7e0, 0xd800, 0xd820, 0xdbe0, 0xdc00, 0xdc20, 0xdfe0, 0xe000, 0xf800, 0xffe0, 0x10000,
               0x10020, 0x10800, 0x11000, 0x1f800, 0x20000, 0x2f800, 0xe0000, 0xe0800, 0x10f800, 0x10ffe0]
    pos = st.one_of(st.builds(lambda a, d: min(max(a + d, 0), 0x10ffff), st.sampled_from(anchors), st.one_of(st.just(0), st.integers(-3, 40))),
                    st.integers(0, 0x21f).map(lambda k: k * 0x800), st.integers(0, 0x87ff).map(lambda k: k * 32), st.integers(0, 0x10ffff))
    length = st.one_of(st.integers(1, 5), st.integers(1, 100), st.sampled_from([32, 64, 128, 0x400, 0x800, 0x1000, 0x8000]), st.integers(1, 0x3000))
    value = st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(0, 0xffff))
    pos, length = words.also(st, pos, *TRIES), words.also(st, length, *TRIES, lo=1)
    value = words.also(st, value, *TRIES, top=0xffff)
    stamp = st.lists(st.tuples(st.integers(0, 31), value), min_size=1, max_size=4)

    @st.composite
    def make(draw):
        initial, runs = draw(st.integers(0, 2)), None
        runs = [(0, initial)]
        for _ in range(draw(st.integers(0, 8))):
            a = draw(pos)
            b = min(a + draw(length), 0x110000)
            runs = paint(runs, a, b, draw(value))
        # the same small pattern in several places gives shared data and index blocks
        for _ in range(draw(st.integers(0, 2))):
            pat = draw(stamp)
            for _ in range(draw(st.integers(1, 5))):
                base = draw(st.one_of(pos.map(lambda p: p & ~31), st.sampled_from(anchors).map(lambda p: p & ~0x7ff),
                                      st.integers(32, 0x21f).map(lambda k: k * 0x800)))
                for o, v in pat:
                    if base + o < 0x110000: runs = paint(runs, base + o, min(base + 32, 0x110000), v)
                if base + 32 < 0x110000 and draw(st.booleans()): runs = paint(runs, base + 32, base + 33, draw(value))
        if draw(st.integers(0, 2)) == 0:
            # one pattern on both sides of whole index-1 entries left alone
            pat, k, n = draw(stamp), draw(st.integers(1, 0x21c)), draw(st.integers(0, 3))
            for base in (k * 0x800 - 32, (k + n) * 0x800):
                for o, v in pat:
                    if base + o < 0x110000: runs = paint(runs, base + o, min(base + 32, 0x110000), v)
                if base + 32 < 0x110000: runs = paint(runs, base + 32, base + 33, initial)
                runs = paint(runs, base + 31, base + 32, initial)
            runs = paint(runs, k * 0x800, (k + n) * 0x800, initial) if n else runs
        # a row of blocks of few kinds, so that equal blocks follow each other, null blocks stand at all places of an index-2 block
        # and values change at both ends of a block
        if draw(st.integers(0, 2)) < 2: runs = tape(draw, runs, initial, pos, value, block, group)
        if draw(st.integers(0, 3)) == 0: runs = paint(runs, draw(pos), 0x110000, draw(value))
        units = draw(st.dictionaries(st.integers(0, 0x3ff), value, max_size=4)) if draw(st.integers(0, 2)) == 0 else {}
        return dict(runs=runs, initial=initial, error=draw(st.integers(0, 0xffff)), units=units,
                    high_extra=draw(st.sampled_from([0, 0, 0, 1, 3])), overlap=draw(st.booleans()), i2null=draw(st.integers(0, 4)) > 0)
    return make()


def rich(seed, block=32, group=0x800, top=0xffff):
    """A map with many rows of blocks of few kinds at all alignments, from a seed (wider than what `specs` draws, without its shrinking)."""
    import random
    r = random.Random(seed)
    known = words.near(*TRIES, top=top)
    value = lambda: r.choice(known) if known and r.random() < .2 else r.choice([0, 1, 2, 3, r.randint(0, top)])
    initial = r.randint(0, 2)
    edit, at = {}, 0        # start -> value, painted later
    runs = [(0, initial if r.random() < .7 else value())]
    anchors = [0, 0x60, 0x80, 0x800, 0x1000, 0xd800, 0xdc00, 0xe000, 0x10000, 0x10800, 0x20000, 0xe0000, 0x10f800, 0x10ffe0, *words.near(*TRIES)[::3]]
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        kinds = [((0, initial),), ((0, value()),)]
        for _ in range(r.randint(1, 3)):
            o = r.choice([1, 2, 3, block - 4, block - 2, block - 1, r.randint(1, block - 1)])
            k = {0: value(), o: value()}
            if r.random() < .3: k[r.randint(0, block - 1)] = value()
            kinds.append(tuple(sorted(k.items())))
        row = []
        for _ in range(r.randint(2, 40)): row += [r.choice(kinds)] * r.choice([1, 1, 2, 2, 3, r.randint(1, group // block)])
        base = r.choice([r.choice(anchors), r.randrange(0x110000), r.randrange(0x10000), r.randrange(0x10000, 0x30000)])
        how = r.randint(0, 2)
        base = base & ~(block - 1) if how == 0 else base & ~(group - 1) if how == 1 else (base & ~(group - 1)) - r.randint(1, len(row)) * block
        base = min(max(base, 0), 0x110000 - block)
        row = row[:(0x110000 - base) // block]
        new = []
        for i, k in enumerate(row):
            for o, v in k: new.append((base + i * block + o, v))
        end = base + len(row) * block
        tail = [v for a, v in runs if a <= end][-1]
        runs = [x for x in runs if x[0] < base] + new + ([(end, tail)] if end < 0x110000 else []) + [x for x in runs if x[0] > end]
        runs = merge(runs)
    if r.random() < .3:
        for _ in range(r.randint(1, 4)): runs = paint(runs, *sorted(r.sample(range(0x110000), 2)), value())
    if r.random() < .3: runs = paint(runs, r.randrange(0x110000), 0x110000, value())
    if r.random() < .4:
        # the same data before and after stretches that hold nothing
        v = r.randint(1, top)
        at = r.choice([r.choice(anchors), r.randrange(0x110000), r.randrange(0x10000, 0x30000)]) & ~(group - 1)
        for _ in range(r.randint(2, 4)):
            n = r.choice([block, 2 * block, group, group, 2 * group, r.randint(1, group)])
            gap = r.choice([block, group, group, 2 * group, 5 * group])
            if r.random() < .5: gap += -n % group
            if at + n + gap >= 0x110000: break
            runs = paint(paint(runs, at, at + n, v), at + n, at + n + gap, initial)
            at += n + gap
    if r.random() < .4:
        # the same group over and over, one value but for a few places
        at = r.choice([r.choice(anchors), r.randrange(0x110000), r.randrange(0x10000, 0x30000)]) & ~(group - 1)
        main = r.choice([initial, value()])
        spots = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            o = r.choice([0, 0, 0, block, group - block, group - 1, r.randrange(group), r.randrange(group) & ~(block - 1)])
            spots.append((o, min(o + r.choice([1, 1, 2, block - 1, block, block + 1]), group), value()))
        n = min(r.choice([2, 2, 3, 5]), (0x110000 - at) // group)
        if n:
            runs = paint(runs, at, at + n * group, main)
            for k in range(n):
                for o, e, v in spots: runs = paint(runs, at + k * group + o, at + k * group + e, v)
    units = {r.randint(0, 0x3ff): value() for _ in range(3)} if r.random() < .2 else {}
    return dict(runs=runs, initial=initial, error=r.randint(0, top), units=units, high_extra=r.choice([0, 0, 0, 1, 3]), overlap=r.random() < .5,
                i2null=r.random() < .8)


def flip(spec):
    """The same map with each value's lowest bit flipped: a trie of the same shape with other values."""
    return dict(spec, runs=[(a, v ^ 1) for a, v in spec['runs']], initial=spec['initial'] ^ 1, error=spec['error'] ^ 1)


def reduce_runs(spec, fails, steps=400):
    """The spec with runs taken away as long as it still fails."""
    runs = list(spec['runs'])
    n = max(1, len(runs) // 2)
    while n and steps > 0:
        k, any_ = 1, False
        while k < len(runs) and steps > 0:
            steps -= 1
            cand = merge(runs[:k] + runs[k + n:])
            if len(cand) < len(runs) and fails(dict(spec, runs=cand)): runs = cand; any_ = True
            else: k += n
        if n > 1 or not any_: n //= 2
    return dict(spec, runs=runs)


def dense(seed):
    """A map with tens of thousands of different data blocks: offsets of more than 16 bits."""
    import random
    r = random.Random(seed)
    a = r.choice([0, 0x80, 0x4000, 0xd000, 0x10000, 0x21000, 0xf0000])
    n = r.choice([0x5000, 0x12000, 0x20000, 0x30000])
    n = min(n, 0x110000 - a)
    initial = r.choice([0, 7, 70000 & 0xffff])
    runs = [(0, initial)] if a else []
    runs += [(a + k, r.randint(0, 0xffff)) for k in range(n)]
    if a + n < 0x110000: runs.append((a + n, r.choice([initial, 0, 9])))
    if a + n < 0x100000 and r.random() < .5: runs += [(0x100000, 5), (0x100020, initial)]
    return dict(runs=merge(runs), initial=initial, error=r.randint(0, 0xffff), overlap=False)
