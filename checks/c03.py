"""All queries on a set tell the same story as its members."""
import functools, itertools
import random, re
from hypothesis import strategies as st
from vp import env
from vp.core import Violation
from vp.setmodel import *
from checks import c01

PID = 'C03'
RULE = ('A case is a set built by a generated mutation history plus generated query points, ranges and indices. Non-trivial: the set '
        'has at least 2 runs and at least one query hits a member and one misses; distinct by members and queries.')
ASSUME = ['contains(range) is asked about non-empty ranges inside the code space; range accessors get indices below the range count.']


def load(ctx):
    c01.load(ctx)
    global US
    US = c01.US


@functools.cache
def cases(base):
    pt = st.one_of(cps(base), cps(base), cps(base), st.integers(-3, -1), st.integers(0x110000, 0x110003))
    return st.tuples(c01.histories(base), st.integers(0, 2), st.lists(pt, min_size=3, max_size=10),
                     st.lists(spans(base), min_size=1, max_size=6), st.lists(st.integers(-2, 30), max_size=6))


def check_queries(ctx, s, m, pts, rngs, idx):
    what = f'members {show(m)}'
    rs = runs(m)
    size = sum(b - a + 1 for a, b in rs)
    def index_of(c):
        n = 0
        for a, b in rs:
            if a <= c <= b: return n + c - a
            n += b - a + 1
    def char_at(i):
        if i < 0: return None
        for a, b in rs:
            if i <= b - a: return a + i
            i -= b - a + 1
    inside = lambda c: any(a <= c <= b for a, b in rs)
    if s.size() != size: raise Violation(f'{what}: size() is {s.size()}, not {size}')
    if s.getRangeCount() != len(rs): raise Violation(f'{what}: getRangeCount() is {s.getRangeCount()}')
    for i, (a, b) in enumerate(rs):
        if (s.getRangeStart(i), s.getRangeEnd(i)) != (a, b):
            raise Violation(f'{what}: range {i} is {s.getRangeStart(i):#x}..{s.getRangeEnd(i):#x}')
    if [(r.start, r.stop - 1, r.step) for r in s.getRanges()] != [(a, b, 1) for a, b in rs]:
        raise Violation(f'{what}: getRanges() is {s.getRanges()}')
    edges = []
    for a, b in rs[:6] + rs[-2:]: edges += [a - 1, a, b, b + 1]
    hits = misses = 0
    for c in pts + edges:
        w = inside(c)
        hits += w; misses += not w
        if bool(s.contains(c)) != w or (c in s) != w: raise Violation(f'{what}: contains({c:#x}) is {s.contains(c)}')
        if s.indexOf(c) != index_of(c): raise Violation(f'{what}: indexOf({c:#x}) is {s.indexOf(c)}, not {index_of(c)}')
        ctx.label('member' if w else 'non-member')
    for a, b in rngs + [(a, b) for a, b in rs[:4]] + [(a, b + 1) for a, b in rs[:4] if b < 0x10ffff] + [(max(a - 1, 0), b) for a, b in rs[:4]] \
            + [(a, d) for (a, b), (c, d) in zip(rs[:3], rs[1:4])]:
        w = any(x <= a and b <= y for x, y in rs)
        r = range(a, b + 1)
        if bool(s.contains(r)) != w or (r in s) != w: raise Violation(f'{what}: contains(range({a:#x}, {b + 1:#x})) is {s.contains(r)}')
    for k, (a, b) in enumerate(rngs + rs[:3] + [(a, d) for (a, b), (c, d) in zip(rs[:3], rs[1:4])]):
        a = max(a, 0)
        step = (2, 3, 7, 1)[k % 4]
        r = range(a, min(b, a + 40 * step, 0x10ffff) + 1, step)
        for r in ([r] if step > 1 else []) + [r[::-1]]:
            if not r: continue
            w = all(inside(c) for c in r)
            ctx.label('stepped range inside' if w else 'stepped range not inside')
            if bool(s.contains(r)) != w or (r in s) != w: raise Violation(f'{what}: contains({r}) is {s.contains(r)}')
    where = [x for r in itertools.accumulate(b - a + 1 for a, b in rs[:8]) for x in (r - 1, r)]
    for i in idx + where + [size - 1, size, -1]:
        if s.charAt(i) != char_at(i): raise Violation(f'{what}: charAt({i}) is {s.charAt(i)}, not {char_at(i)}')
        c = s.charAt(i)
        if c is not None and s.indexOf(c) != i: raise Violation(f'{what}: indexOf(charAt({i})) is {s.indexOf(c)}')
    n = 3000
    got = list(itertools.islice(iter(s), n))
    want = list(itertools.islice((c for a, b in rs for c in range(a, b + 1)), n))
    if got != want: raise Violation(f'{what}: iterating gives {[hex(c) for c in got[:20]]}...')
    if size <= n and len(got) != size: raise Violation(f'{what}: iterates over {len(got)} of {size} members')
    # the printed form is the sequence of range starts and limits
    text = str(s)
    nums = [int(x, 16) for x in re.findall('0x([0-9A-Fa-f]+)', text)]
    if nums[-1:] != [HIGH]: raise Violation(f'{what}: printed as {text}')
    if len(nums) % 2: nums.pop()
    if nums != [x for a, b in rs for x in (a, b + 1)]: raise Violation(f'{what}: printed as {text}')
    if real_runs(s) != rs: raise Violation(f'{what}: the queries changed the set to {s}')
    return len(rs) >= 2 and hits and misses


def run(ctx):
    def body(t):
        (specs, ops), i, pts, rngs, idx = t
        S, M = map(list, zip(*[build(US, sp) for sp in specs]))
        for o in ops: c01.apply(S, M, o)
        nt = check_queries(ctx, S[i], M[i], pts, rngs, idx)
        ctx.case((show(M[i]), pts, rngs, idx), nt)
    ctx.given('queries', base_st.flatmap(cases), body, (1200, 20000))

    # the same objects are queried again after every call, so remembered answers must follow the members
    def after(S, T, o, n):
        s, t = S[o[1]], T[o[1]]
        what = f'after call {n + 1} {o}'
        rs = t_runs(t)
        sums = list(itertools.accumulate((b - a + 1 for a, b in rs), initial=0))
        if s.size() != sums[-1]: raise Violation(f'{what}: size() is {s.size()}, not {sums[-1]}: {s}')
        if s.getRangeCount() != len(rs) or [(r.start, r.stop - 1) for r in s.getRanges()] != rs: raise Violation(f'{what}: ranges are {s.getRanges()}')
        pick = range(len(rs)) if len(rs) <= 12 else sorted({0, 1, 2, len(rs) - 1, len(rs) - 2, len(rs) - 3, len(rs) // 2, *((n * 7 + k * 5) % len(rs) for k in range(6))})
        for k in pick:
            a, b = rs[k]
            for c in {a - 1, a, (a + b) // 2, b, b + 1}:
                w = a <= c <= b
                if bool(s.contains(c)) != w or (c in s) != w: raise Violation(f'{what}: contains({c:#x}) is {s.contains(c)}: {s}')
                x = sums[k] + c - a if w else None
                if s.indexOf(c) != x: raise Violation(f'{what}: indexOf({c:#x}) is {s.indexOf(c)}, not {x}: {s}')
                if w and s.charAt(x) != c: raise Violation(f'{what}: charAt({x}) is {s.charAt(x)}, not {c:#x}: {s}')
            for r, w in ((range(a, b + 1), True), (range(max(a - 1, 0), b + 1), a == 0), (range(a, b + 2), b == HIGH - 1), (range(b, b + 1), True)):
                if r.stop <= HIGH and bool(s.contains(r)) != w: raise Violation(f'{what}: contains({r}) is {s.contains(r)}: {s}')
            if k + 1 < len(rs) and s.contains(range(b, rs[k + 1][0] + 1)): raise Violation(f'{what}: contains the gap after {b:#x}: {s}')
        for i in (-1, sums[-1], sums[-1] + 1):
            if s.charAt(i) is not None: raise Violation(f'{what}: charAt({i}) is {s.charAt(i)}: {s}')
        if sums[-1] < 600 and list(s) != [c for a, b in rs for c in range(a, b + 1)]: raise Violation(f'{what}: iterates over {list(s)[:30]}...')
    crowds(ctx, US, 'many ranges', after, (200, 6000))

    # queries in any order between small changes: what a query remembers must not outlive the members it was about
    def between(seed):
        r = random.Random(seed)
        base = r.choice([0, 0, 0x300, 0xd7f0, 0xfff0, 0x10ff00])
        log = []
        ctx.current = log
        M, s = set(), US()
        def change(f, *a):
            log.append((f, *a))
            if f == 'add': M.update(range(a[0], a[1] + 1)); s.addRange(*a) if a[0] != a[1] else s.add(a[0])
            elif f == 'remove': M.difference_update(range(a[0], a[1] + 1)); s.removeRange(*a) if a[0] != a[1] else s.remove(a[0])
            elif f == 'complement': M.symmetric_difference_update(range(a[0], a[1] + 1)); s.complementRange(*a) if a[0] != a[1] else s.complement(a[0])
            elif f == 'swap':
                o = US()
                for c in a[0]: o.add(c)
                M.symmetric_difference_update(a[0]); s.complementAll(o)
        c = base + r.randint(0, 2)
        for _ in range(r.choice([2, 3, 4, 6, 9])):
            n = r.choice([0, 1, 3, 9, 9])
            if c + n > 0x10ffff: break
            change('add', c, c + n)
            c += n + r.choice([2, 3, 11])
        for _ in range(r.randint(2, 5)):
            L = sorted(M)
            for _ in range(r.randint(1, 6)):
                q = r.choice(['charAt', 'charAt', 'charAt', 'indexOf', 'indexOf', 'contains', 'range', 'size', 'ranges', 'iter'])
                x = None
                if q == 'charAt':
                    x = r.randint(0, max(len(L), 1)) if r.random() < .7 or not L else r.choice([len(L) - 1, len(L), len(L) // 2])
                    got, want = s.charAt(x), L[x] if x < len(L) else None
                elif q == 'indexOf':
                    x = r.choice(L) if L and r.random() < .8 else base + r.randint(0, 60)
                    got, want = s.indexOf(x), L.index(x) if x in M else None
                elif q == 'contains':
                    x = (r.choice(L) + r.randint(-1, 1)) if L else base
                    got, want = bool(s.contains(x)), x in M
                elif q == 'range':
                    a = r.choice(L) if L else base
                    x = range(a, a + r.randint(1, 10))
                    got, want = bool(s.contains(x)), all(c in M for c in x)
                elif q == 'size': got, want = s.size(), len(M)
                elif q == 'ranges': got, want = [c for x in s.getRanges() for c in x], L
                else: got, want = list(itertools.islice(s, r.randint(1, 40))), None; want = L[:len(got)] if got else L
                log.append((q, x))
                if got != want: raise Violation(f'{q}({x}) is {got}, not {want}, at the end of {log}')
            # mostly such that the number of members, or of ranges, or the last ranges stay
            for _ in range(r.choice([1, 1, 2, 2, 3])):
                k = r.randint(0, 5)
                edge = r.choice(sorted(M)[:12] or [base])
                if k <= 1: change('remove', edge, edge)
                elif k == 2: change('add', *[min(r.choice(L or [base]) + 1, 0x10ffff)] * 2)
                elif k == 3 and L: change('swap', r.sample(L, 1) + [x for x in (L[0] - 1, L[-1] + 1, edge + 1) if 0 <= x <= 0x10ffff and x not in M][:1])
                elif k == 4: change('complement', edge, min(edge + r.randint(0, 3), 0x10ffff))
                else: change('complement', *[min(base + r.randint(0, 40), 0x10ffff)] * 2)
        ctx.case((seed, 'between'), len(real_runs(s)) >= 2, sample=log[-6:], label='queries between changes')
    ctx.many('queries between changes', between, (6000, 200000))

    # sets of hundreds of thousands of members, iterated to the end
    def longest(seed):
        r = random.Random(seed)
        s = US()
        rs = [] if seed % 16 else [(0, HIGH - 1)]
        c = r.choice([0, 0, 0x41, 0xd7f0, 0xfff0])
        while seed % 16 and c < HIGH:
            n = r.choice([1, 300, 5000, 0x10000, 0x10000, 0x20000, 0x50000, HIGH]) + r.choice([-2, -1, 0, 1, 2, 77])
            rs.append((c, min(c + max(n, 1), HIGH) - 1))
            c += max(n, 1) + r.choice([1, 2, 0xffff, 0x10000])
        ctx.current = rs
        for a, b in rs: s.addRange(a, b) if a != b else s.add(a)
        want = itertools.chain(*(range(a, b + 1) for a, b in rs))
        for i, (x, y) in enumerate(itertools.zip_longest(s, want)):
            if x != y:
                name = lambda c: 'the end' if c is None else f'{c:#x}'
                raise Violation(f'{rs}: iterating, member {i} is {name(x)}, not {name(y)}')
        ctx.case((seed, 'long'), len(rs) >= 2 or rs[0][1] > 0xffff, sample=[hex(x) for t in rs[:4] for x in t], label='iterated to the end')
    ctx.many('long iterations', longest, (60, 1500))

    # exhaustive: every subset of 8 consecutive code points at each end, every query point and range near them
    def small():
        for base in (0, 0xfffc, 0x10fff8):
            for x in range(256):
                ctx.current = (hex(base), x)
                s = US()
                for j in range(8):
                    if x >> j & 1: s.add(base + j)
                for c in range(base - 2, base + 11):
                    w = 0 <= c - base < 8 and bool(x >> (c - base) & 1)
                    if bool(s.contains(c)) != w: raise Violation(f'{s}: contains({c:#x}) is {s.contains(c)}')
                for a in range(8):
                    for b in range(a, 8):
                        r = range(base + a, base + b + 1)
                        w = all(x >> j & 1 for j in range(a, b + 1))
                        if bool(s.contains(r)) != w: raise Violation(f'{s}: contains({r}) is {s.contains(r)}')
                mem = [base + j for j in range(8) if x >> j & 1]
                if list(s) != mem or s.size() != len(mem): raise Violation(f'{s}: members {list(s)}, size {s.size()}')
                if [s.indexOf(c) for c in mem] != list(range(len(mem))): raise Violation(f'{s}: indexOf wrong')
                if [s.charAt(i) for i in range(-1, len(mem) + 1)] != [None] + mem + [None]: raise Violation(f'{s}: charAt wrong')
                ctx.count(13 + 36 + 3)
        ctx.label('exhaustive small sets', 3 * 256)
    ctx.part('small universe', small)
