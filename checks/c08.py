"""CPTrie lookup returns the value the trie was built with, for tries serialised by ICU itself."""
import array, random, struct
from hypothesis import strategies as st
import bisect
from vp import env, icu, utrie2
from vp.core import Violation

PID = 'C08'
RULE = ('A case is a generated map from code points to values, a trie type (fast or small) and a value width (8, 16 or 32 bits), '
        "serialised by ICU's own builder and read back. Looked up at every run edge, block edge and random points. Non-trivial: at "
        'least 4 runs with a change inside a data block; distinct by map, type and width.')
ASSUME = ["libicuuc.so.74's umutablecptrie builder writes correct serialised tries in native byte order.", 'Lookups get non-negative integers.']


PLACES = [0, 0, 0, 0x1000, 0x10000, 0x20033, 0x30000, 0xf0000, 0xfc000]


def rich(seed):
    """Rows of blocks of both sizes (see utrie2.rich), all types and widths."""
    r = random.Random(seed)
    kind, width = r.randint(0, 1), r.randint(0, 2)
    spec = utrie2.rich(seed + 1, *r.choice([(16, 0x200), (16, 0x200), (16, 0x4000), (64, 0x1000)]), top=[0xffff, 0xffffffff, 0xff][width])
    spec = dict(runs=spec['runs'], initial=spec['initial'] if r.random() < .8 else 0x71, error=spec['error'], kind=kind, width=width)
    return spec, r


def load(ctx):
    global CPTrie
    CPTrie = env.mod('CPTrie').CPTrie


def big(seed, where):
    """A map with more than 65536 distinct data entries, which forces 18-bit data block indexes; in some the null data block, if any,
    comes after them, in some there is none."""
    import random
    r = random.Random((seed << 24) + where)
    length = r.choice([0x12000, 0x14000, 0x24000, 0x3d000])
    end = min(where + length, 0x110000)
    runs = [(0, 0)] if where else []
    runs += [(c, r.randint(1, 0xffff)) for c in range(where, end)]
    if end < 0x110000:
        tail = r.choice([0, 0, 3])
        runs.append((end, tail))
        if r.random() < .6:
            x = r.randint(end + 0x800, 0x10f000) if end < 0x10e000 else None
            if x: runs += [(x, 9), (x + r.choice([16, 32, 0x200, 0x1000]), tail ^ 3)]
    return utrie2.merge([x for x in runs if x[0] < 0x110000])


def specs():
    def shape(t):
        spec, kind, width, factor, unused = t
        # an initial value no code point is left with: the trie has no null blocks
        if unused in (1, 2): spec = dict(spec, initial=unused + 0x30)
        if unused == 3:
            # no block with one value anywhere below the high range
            period, end = [3, 7, 13, 15][factor & 3], [0x1000, 0x1200, 0x10000, 0x10400][spec['error'] & 3]
            spec = dict(spec, runs=utrie2.merge([(c, c // period % 5 + (c >> 8) % 3) for c in range(0, end, period)] + [(end, spec['error'] & 7)]))
        top = 0xff if width == 2 else 0xffff if width == 0 else 0xffffffff
        f = (lambda v: v * factor & top) if width == 1 else (lambda v: v & top)
        return dict(runs=utrie2.merge([(a, f(v)) for a, v in spec['runs']]), initial=f(spec['initial']), error=f(spec['error']),
                    kind=kind, width=width)
    return st.tuples(utrie2.specs(), st.integers(0, 1), st.integers(0, 2), st.sampled_from([1, 0x10001, 0x9e3779b1]), st.sampled_from([0] * 9 + [1, 2] * 2 + [3])).map(shape)


def trie_of(spec):
    return CPTrie.createFromData(icu.cptrie_bytes(spec['runs'], spec['initial'], spec['error'], spec['kind'], spec['width']))


def points(runs, extra):
    out = {0, 0x7f, 0x80, 0xfff, 0x1000, 0xd800, 0xdc00, 0xffff, 0x10000, 0x10fffe, 0x10ffff, 0x110000, 0x110001, 0x7fffffff}
    for a, _ in runs[:3000]:
        for m in (0, 15, 63, 511, 0x3fff): out |= {a | m, (a | m) + 1, a & ~m}
        out |= {a - 1, a, a + 1}
    return sorted(c for c in out | set(extra) if c >= 0)


def check(ctx, spec, extra):
    trie = trie_of(spec)
    runs = spec['runs']
    starts = [r[0] for r in runs]
    for c in points(runs, extra):
        w = spec['error'] if c > 0x10ffff else runs[bisect.bisect_right(starts, c) - 1][1]
        got = trie.get(c)
        if got != w: raise Violation(f'get({c:#x}) is {got}, the trie was built with {w} (type {spec["kind"]}, width {spec["width"]}, highStart {trie.highStart:#x})')
        ctx.count()


def run(ctx):
    def body(t):
        spec, extra = t
        check(ctx, spec, extra)
        if all(v != spec['initial'] for _, v in spec['runs']): ctx.label('initial value unused')
        ctx.label(f'{["fast", "small"][spec["kind"]]} {[16, 32, 8][spec["width"]]}-bit')
        ctx.case(sorted(spec.items(), key=str), len(spec['runs']) >= 4 and any(a % 16 for a, _ in spec['runs']))
    ctx.given('lookup', st.tuples(specs(), st.lists(st.integers(0, 0x10ffff), max_size=20)), body, (300, 6000))

    def rows(seed):
        spec, r = rich(seed)
        extra = [r.randrange(0x110000) for _ in range(20)]
        try: check(ctx, spec, extra)
        except Violation:
            def fails(s):
                try: check(ctx, s, extra)
                except Violation: return True
                return False
            spec = utrie2.reduce_runs(spec, fails)
            ctx.current = spec, extra
            check(ctx, spec, extra)
            raise
        ctx.label(f'rows, {["fast", "small"][spec["kind"]]} {[16, 32, 8][spec["width"]]}-bit')
        ctx.case((seed, 'rows'), len(spec['runs']) >= 4)
    ctx.many('rows of blocks', rows, (1200, 12000))

    def pair(seed):
        # two tries of the same shape, asked in turn
        spec, r = rich(seed)
        other = utrie2.flip(spec)
        ctx.current = spec, other
        tries = [(trie_of(x), x, [a for a, _ in x['runs']]) for x in (spec, other)]
        cs = points(spec['runs'], [])
        for c in r.sample(cs, min(len(cs), 60)):
            for trie, x, starts in tries + tries[:1]:
                w = x['error'] if c > 0x10ffff else x['runs'][bisect.bisect_right(starts, c) - 1][1]
                got = trie.get(c)
                if got != w: raise Violation(f'get({c:#x}) is {got} after it was asked of another trie, the trie was built with {w}')
                ctx.count()
        ctx.case((seed, 'pair'), len(spec['runs']) >= 4, label='two tries in turn')
    ctx.many('two tries', pair, (200, 3000))

    def large(t):
        seed, where, kind, width = t
        runs = big(seed, where)
        if width == 2: runs = utrie2.merge([(a, v & 0xff) for a, v in runs])
        check(ctx, dict(runs=runs, initial=0, error=0xad if width == 2 else 0xbad, kind=kind, width=width), [min(where + 97 * k, 0x10ffff) for k in range(2600)])
        ctx.case(t, True, label='tries with 18-bit data indexes')
    ctx.given('18-bit indexes', st.tuples(st.integers(0, 99), st.sampled_from(PLACES),
                                          st.integers(0, 1), st.integers(0, 2)), large, (24, 120), shrink=False)

    def padded(seed):
        # entries no index refers to, up to round lengths; and the trie made from its arrays instead of its bytes
        spec, r = rich(seed)
        raw = icu.cptrie_bytes(spec['runs'], spec['initial'], spec['error'], spec['kind'], spec['width'])
        sig, opts, ilen, dlen, i3null, dnull, shs = struct.unpack_from('=IHHHHHH', raw)
        full = (opts & 0xf000) << 4 | dlen
        code = 'HIB'[spec['width']]
        index = struct.unpack_from(f'={ilen}H', raw, 16)
        data = struct.unpack_from(f'={full}{code}', raw, 16 + 2 * ilen)
        want = r.choice([n for n in (full, full + 2, full + 16, 0x8000, 0xffff, 0x10000, 0x10000, 0x10001, 0x12345, 0x20000, 0x30000) if n == full or n >= full + 2])
        if want > full: data += ((r.choice([0, 1, 0x5a]),) * (want - full))[2:] + data[-2:]
        null = (opts & 0xf00) << 8 | dnull
        if null >= full: null = 0xfffff
        made = struct.pack('=IHHHHHH', sig, want >> 4 & 0xf000 | null >> 8 & 0xf00 | opts & 0xff, ilen, want & 0xffff, i3null, null & 0xffff, shs)
        made += struct.pack(f'={ilen}H', *index) + struct.pack(f'={want}{code}', *data)
        made += r.choice([b'', b'', bytes(r.choice([1, 2, 7, 16]))])
        kind = r.choice([list, tuple, lambda x: array.array({'H': 'H', 'I': 'I', 'B': 'B'}[code] if x is data else 'H', x)])
        ctx.current = spec, want
        tries = [CPTrie.createFromData(made), CPTrie(kind(index), kind(data), spec['kind'], spec['width'], i3null, null, shs << 9, (shs << 9) + 0xfff >> 12)]
        starts = [a for a, _ in spec['runs']]
        cs = points(spec['runs'], [])
        if len(cs) > 150: cs = r.sample(cs, 150) + [0x110000, 0x10ffff]
        for c in cs:
            w = spec['error'] if c > 0x10ffff else spec['runs'][bisect.bisect_right(starts, c) - 1][1]
            for t, how in zip(tries, ('read from bytes', 'made of arrays')):
                if t.get(c) != w: raise Violation(f'get({c:#x}) of a trie {how} is {t.get(c)}, it was built with {w} (type {spec["kind"]}, width {spec["width"]}, data length {want:#x})')
                ctx.count()
        for t, how in zip(tries, ('read from bytes', 'made of arrays')):
            a = r.choice(starts)
            b = min(a + r.choice([1, 70, 0x900]), 0x110000)
            i = bisect.bisect_right(starts, a) - 1
            j = bisect.bisect_left(starts, b)
            ranges = [(max(x, a), min(y, b), v) for (x, v), y in zip(spec['runs'][i:j], (starts + [0x110000])[i + 1:])]
            got = [(x.start, x.stop, v) for x, v in t.enumerator(a, b)]
            if got != ranges: raise Violation(f'enumerating [{a:#x}, {b:#x}) of a trie {how} gives {got[:5]}..., not {ranges[:5]}... (data length {want:#x})')
        ctx.case((seed, 'padded'), len(spec['runs']) >= 4, label='made of arrays, data of round lengths')
    ctx.many('round lengths', padded, (150, 2000))

    def sweep(spec):
        trie = trie_of(spec)
        for (a, v), z in zip(spec['runs'], [r[0] for r in spec['runs'][1:]] + [0x110000]):
            for c in range(a, z):
                if trie.get(c) != v: raise Violation(f'get({c:#x}) is {trie.get(c)}, the trie was built with {v}')
        ctx.count(0x110000)
        ctx.case(('sweep', sorted(spec.items(), key=str)), len(spec['runs']) >= 4, label='complete sweeps')
    ctx.given('sweep', specs(), sweep, (6, 60), shrink=False)
