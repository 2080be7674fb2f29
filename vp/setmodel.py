"""Reference model of a set of code points: one big integer, bit c set when c is a member."""
import functools
from hypothesis import strategies as st
from .core import Violation
from . import words

HIGH = 0x110000
FULL = (1 << HIGH) - 1


def mask(a, b):
    """Members a..b inclusive (empty when b < a)."""
    return ((1 << (b - a + 1)) - 1) << a if b >= a else 0


def pin(c): return 0 if c < 0 else min(c, HIGH - 1)


def runs(m):
    """Maximal runs [(start, last)] of a member mask, ascending."""
    out = []
    edge = (m ^ (m << 1))
    base = 0
    pts = []
    while edge:
        k = (edge & -edge).bit_length() - 1
        pts.append(base + k)
        edge >>= k + 1
        base += k + 1
    for i in range(0, len(pts), 2): out.append((pts[i], pts[i + 1] - 1))
    return out


def show(m): return '[' + ' '.join(f'{a:X}-{b:X}' if a != b else f'{a:X}' for a, b in runs(m)) + ']'


# code points next to numbers in the code under test, other than those it always had
WORDS = words.near('UnicodeData/UnicodeSet.py')
SIZES = tuple(v for v in WORDS if 3 < v <= 3000)

near = st.one_of(st.integers(0, 24), st.integers(0, 24), st.integers(0x10fff0, 0x10ffff), st.integers(0xfff8, 0x10008),
                 st.sampled_from([0, 1, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10fffe, 0x10ffff]),
                 st.integers(0, 0x10ffff))
if WORDS: near = st.one_of(near, near, near, st.sampled_from(WORDS))
outside = st.one_of(st.integers(-8, -1), st.integers(0x110000, 0x110008), st.sampled_from([-0x110000, 1 << 21, 1 << 31, 1 << 40]))
anycp = st.one_of(near, near, near, near, near, outside)


@st.composite
def ordered(draw, cps=near):
    a, b = draw(cps), draw(cps)
    return (a, b) if a <= b else (b, a)

# One small neighbourhood per case makes adjacency, overlap and equal bounds frequent.
BASES = 3 * [0, 0, 0xd7fa, 0xfffa, 0x10fff4] + [0x7a, 0xfa, 0x7fa, 0xffa, 0x1fffa, 0xffffa]    # and where tables for small code points may end


@functools.cache
def cps(base):
    loc = st.integers(0, 11).map(lambda k: base + k)
    return st.one_of(loc, loc, loc, loc, near)


@functools.cache
def spans(base):
    loc = st.tuples(st.integers(0, 11), st.integers(0, 4)).map(lambda t: (base + t[0], min(base + t[0] + t[1], base + 11)))
    far = [ordered(), st.tuples(st.just(base), cps(base)).map(lambda t: (min(t), max(t)))]
    if WORDS: far.append(ordered(st.sampled_from(WORDS)))
    return st.one_of(loc, loc, loc, loc, loc, *far)


@functools.cache
def setspecs(base): return st.lists(spans(base), max_size=6)


base_st = st.sampled_from(BASES)
if WORDS: base_st = st.one_of(base_st, st.sampled_from(sorted({min(max(0, w - 5), HIGH - 12) for w in WORDS})))
span = base_st.flatmap(spans)
setspec = base_st.flatmap(setspecs)


def build(US, spec):
    """A (real set, model) pair from a list of member spans."""
    s, m = US(), 0
    for a, b in spec:
        s.addRange(a, b)
        m |= mask(a, b)
    return s, m


def real_runs(s):
    return [(s.getRangeStart(i), s.getRangeEnd(i)) for i in range(s.getRangeCount())]


def cached_runs(m):
    """runs(m), remembering recent answers (models rarely change between checks)."""
    for k in _recent:
        if k[0] is m: return k[1]
    r = runs(m)
    _recent.append((m, r))
    if len(_recent) > 8: _recent.pop(0)
    return r
_recent = []


def check_members(s, m, what):
    """The set's ranges are exactly the maximal runs of the model."""
    got = real_runs(s)
    if got != cached_runs(m):
        raise Violation(f'{what}: ranges are {[(hex(a), hex(b)) for a, b in got]}, the members are {show(m)}')


# ---- histories on sets of many ranges (seed-driven; a model of toggle points keeps them cheap) ---------------------------------

def toggles(rs): return [x for a, b in rs for x in (a, b + 1)]


def t_runs(t): return [(t[i], t[i + 1] - 1) for i in range(0, len(t), 2)]


def combine(A, B, f):
    """Toggle points of f(A, B) for sets given by their sorted toggle points (f(False, False) is False)."""
    a = b = state = False
    i = j = 0
    out = []
    while i < len(A) or j < len(B):
        p = min(A[i] if i < len(A) else HIGH + 1, B[j] if j < len(B) else HIGH + 1)
        if i < len(A) and A[i] == p: a = not a; i += 1
        if j < len(B) and B[j] == p: b = not b; j += 1
        s = f(a, b)
        if s != state: out.append(p); state = s
    return out


JOIN = {'add': lambda a, b: a or b, 'remove': lambda a, b: a and not b, 'retain': lambda a, b: a and b, 'complement': lambda a, b: a != b}
BULK = {'addAll': 'add', 'removeAll': 'remove', 'retainAll': 'retain', 'complementAll': 'complement', '|=': 'add', '-=': 'remove', '&=': 'retain',
        '^=': 'complement', '|': 'add', '-': 'remove', '&': 'retain', '^': 'complement', 'union': 'add', 'difference': 'remove',
        'intersection': 'retain', 'symmetric_difference': 'complement'}
PURE_OPS = ['|', '-', '&', '^', 'union', 'difference', 'intersection', 'symmetric_difference']


def t_apply(T, o):
    """The model's side of one call."""
    name, i, x = o
    if name == 'fill':
        # the spans of a fill neither overlap nor touch
        T[i] = combine(T[i], toggles(sorted(x[1])), JOIN['add'])
    elif name in ('add', 'remove', 'retain', 'complement') and x is not None: T[i] = combine(T[i], [x, x + 1], JOIN[name])
    elif name.endswith('Range'): T[i] = combine(T[i], [x[0], x[1] + 1], JOIN[name[:-5]])
    elif name == 'complement': T[i] = combine(T[i], [0, HIGH], JOIN['complement'])
    elif name == 'clear': T[i] = []
    elif name == 'copy': T[i] = list(T[x])
    elif name in PURE_OPS: T[i] = combine(T[x[0]], T[x[1]], JOIN[BULK[name]])
    else: T[i] = combine(T[i], T[x], JOIN[BULK[name]])


def r_apply(US, S, o):
    """The same call on the real sets."""
    name, i, x = o
    s = S[i]
    if name == 'fill':
        how, spans_ = x
        for a, b in spans_:
            if how == 'add':
                for c in range(a, b + 1): s.add(c)
            else: s.addRange(a, b)
    elif name in ('add', 'remove', 'retain', 'complement'): s.complement() if x is None else getattr(s, name)(x)
    elif name.endswith('Range'): getattr(s, name)(*x)
    elif name == 'clear': s.clear()
    elif name == 'copy': S[i] = US(S[x])
    elif name in PURE_OPS:
        a, b = S[x[0]], S[x[1]]
        S[i] = (a | b if name == '|' else a - b if name == '-' else a & b if name == '&' else a ^ b if name == '^' else getattr(a, name)(b))
    elif name == '|=': s |= S[x]; S[i] = s
    elif name == '-=': s -= S[x]; S[i] = s
    elif name == '&=': s &= S[x]; S[i] = s
    elif name == '^=': s ^= S[x]; S[i] = s
    else: getattr(s, name)(S[x])


def crowd(seed, ops=(8, 24)):
    """A history over three sets of up to some hundred ranges each, as a list of calls."""
    import random
    r = random.Random(seed)
    huge = r.random() < .12
    W = r.choice([12000, 30000]) if huge else r.choice([40, 120, 400, 1500])
    if SIZES and r.random() < .3: huge = True; W = 4 * max(SIZES)
    base = r.choice([0, 0, 0, 3, 0xd780, 0xff80, 0x1ff00, None, None, None])
    if base is None: base = 0x110000 - W
    top = min(base + W, HIGH) - 1
    T = [[], [], []]
    H = []
    def do(*o): H.append(o); t_apply(T, o)
    def spans_(n):
        gap = r.choice([1, 2, 3, max(1, W // (n + 1))])
        out, c = [], base + r.randint(0, 3)
        for _ in range(n):
            b = c + r.choice([0, 0, 1, 2, r.randint(0, gap)])
            if b > top: break
            out.append((c, b))
            c = b + 1 + r.choice([1, 1, 2, gap, r.randint(1, gap)])
            if c > top: break
        # up to the end, the last code point among others
        if out[-1][1] < top and r.random() < .3: out.append((max(out[-1][1] + 2, top - r.choice([0, 0, 1, 3])), top)) if out[-1][1] + 2 <= top else None
        k = r.randint(0, 3) if len(out) < 400 else 0
        if k == 1: out.reverse()
        elif k == 2: r.shuffle(out)
        return out
    def point(i):
        if WORDS and r.random() < .2: return r.choice(WORDS)
        t = T[i]
        if t and r.random() < .75: c = r.choice(t) + r.choice([-1, -1, 0, 0, 1])
        elif T[(i + 1) % 3] and r.random() < .5: c = r.choice(T[(i + 1) % 3]) + r.choice([-1, 0])
        else: c = r.randint(base, top)
        return min(max(c, 0), HIGH - 1)
    def span_(i):
        a = point(i)
        k = r.randint(0, 4)
        b = a if k == 0 else a + r.randint(0, 4) if k == 1 else a + r.randint(0, W) if k == 2 else point(i)
        a, b = min(a, b), max(a, b)
        return a, min(b, HIGH - 1)
    for i in range(3):
        if r.random() < .85: do('fill', i, (r.choice(['add', 'addRange', 'addRange']), spans_(r.choice(SIZES) if SIZES and r.random() < .4 else r.choice([40, 130, 300, 700, 1400, 2600]) if huge else r.choice([2, 5, 12, 40, 40, 80]))))
        if r.random() < .15: do('complement', i, None)
    for _ in range(r.randint(*ops)):
        i = r.randint(0, 2)
        k = r.randint(0, 11)
        if k <= 3: do(r.choice(['add', 'remove', 'complement', 'add', 'remove', 'complement', 'retain'] if r.random() < .05 else ['add', 'remove', 'complement']), i, point(i))
        elif k <= 6:
            n = r.choice(['addRange', 'removeRange', 'complementRange', 'retainRange'])
            x = span_(i)
            if n == 'retainRange' and r.random() < .8 and T[i]: x = (min(x[0], T[i][min(len(T[i]) - 1, r.randint(0, 5))]), max(x[1], T[i][-1 - min(len(T[i]) - 1, r.randint(0, 5))]))
            do(n, i, x)
        elif k <= 8: do(r.choice(['addAll', 'removeAll', 'complementAll', '|=', '-=', '^=', 'retainAll', '&=']), i, r.randint(0, 2))
        elif k == 9: do(r.choice(PURE_OPS), i, (r.randint(0, 2), r.randint(0, 2)))
        elif k == 10: do('fill', i, (r.choice(['add', 'addRange']), spans_(r.choice([3, 10, 40]))))
        else:
            q = r.randint(0, 5)
            if q == 0: do('clear', i, None)
            elif q <= 2: do('copy', i, r.randint(0, 2))
            else: do('complement', i, None)
    return H


def check_toggles(s, t, what):
    got = real_runs(s)
    if got != t_runs(t): raise Violation(f'{what}: ranges are {[(hex(a), hex(b)) for a, b in got][:40]}, the members are {[(hex(a), hex(b)) for a, b in t_runs(t)][:40]}')


def crowds(ctx, US, name, after, examples, ops=(8, 24)):
    """Drives seed-driven histories; after(S, T, o, n) checks the state after each call. A failing history is reduced call by call."""
    def play(H):
        S, T = [US(), US(), US()], [[], [], []]
        for n, o in enumerate(H):
            t_apply(T, o); r_apply(US, S, o)
            after(S, T, o, n)
    def body(seed):
        H = crowd(seed, ops)
        try: play(H)
        except Exception as e:
            def fails(h):
                try: play(h)
                except Exception: return True
                return False
            ctx.current = H = reduce_calls(H, fails)
            play(H)
            raise
        big = sum(o[0] == 'fill' and len(o[2][1]) > 8 for o in H)
        ctx.case((name, seed), big >= 1 and len({o[0] for o in H}) >= 4, sample=H[-6:], label='histories on sets of many ranges')
    ctx.given(name, st.integers(0, 1 << 48), body, examples, shrink=False)


def reduce_list(xs, fails, budget):
    n = max(1, len(xs) // 2)
    while n and budget[0] > 0:
        k = 0
        while k < len(xs) and budget[0] > 0:
            budget[0] -= 1
            c = xs[:k] + xs[k + n:]
            if fails(c): xs = c
            else: k += n
        n //= 2
    return xs


def reduce_calls(H, fails):
    budget = [600]
    H = reduce_list(H, fails, budget)
    for k, o in enumerate(H):
        if o[0] == 'fill':
            put = lambda xs: H[:k] + [(o[0], o[1], (o[2][0], xs))] + H[k + 1:]
            H = put(reduce_list(list(o[2][1]), lambda xs: fails(put(xs)), budget))
    return H
