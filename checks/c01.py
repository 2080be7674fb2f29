"""Histories of mutations agree with a mathematical set."""
from hypothesis import strategies as st
from vp import env
from vp.core import Violation
from vp.setmodel import *

PID = 'C01'
RULE = ('A case is a generated history of constructor and mutator calls over three sets. Non-trivial: at least 4 calls of at '
        'least 3 kinds on non-empty sets, some call changing membership; distinct by its call sequence.')
ASSUME = ['Ranges given as range objects are not empty, except where the documentation says an empty range is a no-op, and lie inside the code space.',
          'Arguments are ints, ranges (of any step) and UnicodeSet objects.']


def load(ctx):
    global US
    US = env.mod('UnicodeSet').UnicodeSet


slot = st.integers(0, 2)
@functools.cache
def steps(base):
    """Ranges with a step of their own, up or down."""
    def stepped(t):
        a, k, n, down = t
        top = min(a + (n - 1) * k, 0x10ffff)
        r = range(a, top + 1, k)
        return range(r[-1], a - 1, -k) if down else r
    return st.tuples(cps(base), st.sampled_from([1, 2, 2, 3, 5, 16]), st.integers(1, 8), st.booleans()).map(stepped)


@functools.cache
def ops_at(base):
    near, span = cps(base), spans(base)
    return st.one_of(
        st.tuples(st.just('add'), slot, near),
        st.tuples(st.just('remove'), slot, near),
        st.tuples(st.just('retain'), slot, near),
        st.tuples(st.just('flip'), slot, near),
        st.tuples(st.just('addRange'), slot, span),
        st.tuples(st.just('addRange'), slot, span),
        st.tuples(st.just('removeRange'), slot, span),
        st.tuples(st.just('retainRange'), slot, span),
        st.tuples(st.just('complementRange'), slot, span),
        st.tuples(st.just('complementRangeObj'), slot, span),
        st.tuples(st.just('reversed'), slot, st.tuples(st.sampled_from(['addRange', 'removeRange', 'complementRange']), span)),
        st.tuples(st.just('complement'), slot, st.none()),
        st.tuples(st.just('clear'), slot, st.none()),
        st.tuples(st.just('new'), slot, st.one_of(st.none(), near, span)),
        st.tuples(st.sampled_from(['newStep', 'complementStep']), slot, steps(base)),
        st.tuples(st.just('copy'), slot, slot),
        st.tuples(st.just('addAll'), slot, slot),
        st.tuples(st.just('removeAll'), slot, slot),
        st.tuples(st.just('retainAll'), slot, slot),
        st.tuples(st.just('complementAll'), slot, slot),
        st.tuples(st.just('ior'), slot, slot),
        st.tuples(st.just('isub'), slot, slot),
        st.tuples(st.just('iand'), slot, slot),
        st.tuples(st.just('ixor'), slot, slot),)


@functools.cache
def histories(base):
    op = ops_at(base)
    return st.tuples(st.lists(setspecs(base), min_size=3, max_size=3),
                     st.one_of(st.lists(op, max_size=24), st.lists(op, min_size=6, max_size=30), st.lists(op, min_size=10, max_size=30)))


history = base_st.flatmap(histories)


def apply(S, M, o):
    """One call on the real sets S and the model M; returns what the call returned."""
    name, i, x = o
    s, m = S[i], M[i]
    r = s
    if name == 'add': r = s.add(x); m |= mask(x, x)
    elif name == 'remove': r = s.remove(x); m &= ~mask(x, x)
    elif name == 'retain': r = s.retain(x); m &= mask(x, x)
    elif name == 'flip': r = s.complement(x); m ^= mask(x, x)
    elif name == 'addRange': r = s.addRange(*x); m |= mask(*x)
    elif name == 'removeRange': r = s.removeRange(*x); m &= ~mask(*x)
    elif name == 'retainRange': r = s.retainRange(*x); m &= mask(*x)
    elif name == 'complementRange': r = s.complementRange(*x); m ^= mask(*x)
    elif name == 'complementRangeObj': r = s.complement(range(x[0], x[1] + 1)); m ^= mask(*x)
    elif name == 'reversed':
        fn, (a, b) = x
        if a == b: return s
        r = getattr(s, fn)(b, a)
    elif name == 'complement': r = s.complement(); m = FULL & ~m
    elif name == 'clear': r = s.clear(); m = 0
    elif name == 'new':
        if x is None: s = US(); m = 0
        elif isinstance(x, int): s = US(x); m = mask(x, x)
        else: s = US(range(x[0], x[1] + 1)); m = mask(*x)
        S[i] = r = s
    elif name == 'newStep': S[i] = r = s = US(x); m = union_mask(x)
    elif name == 'complementStep': r = s.complement(x); m ^= union_mask(x)
    elif name == 'copy': S[i] = r = US(S[x]); m = M[x]
    elif name in ('addAll', 'removeAll', 'retainAll', 'complementAll'):
        r = getattr(s, name)(S[x]); m = bulk(name, m, M[x])
    else:
        k = {'ior': 'addAll', 'isub': 'removeAll', 'iand': 'retainAll', 'ixor': 'complementAll'}[name]
        t = s
        if name == 'ior': t |= S[x]
        elif name == 'isub': t -= S[x]
        elif name == 'iand': t &= S[x]
        else: t ^= S[x]
        S[i] = r = t
        m = bulk(k, m, M[x])
    M[i] = m
    return r


def union_mask(cps):
    m = 0
    for c in cps: m |= mask(c, c)
    return m


def bulk(name, m, n):
    return m | n if name == 'addAll' else m & ~n if name == 'removeAll' else m & n if name == 'retainAll' else m ^ n


def run(ctx):
    def body(h):
        specs, ops = h
        S, M = map(list, zip(*[build(US, sp) for sp in specs]))
        for i in range(3): check_members(S[i], M[i], f'set {i} built by addRange')
        kinds, changed = set(), False
        for n, o in enumerate(ops):
            before = M[o[1]]
            apply(S, M, o)
            changed |= before != M[o[1]]
            if before: kinds.add(o[0]); ctx.label('op ' + o[0])
            for i in range(3): check_members(S[i], M[i], f'after call {n + 1} {o}, set {i}')
        ctx.case(h, len(ops) >= 4 and len(kinds) >= 3 and changed)
    ctx.given('history', history, body, (1500, 30000))

    def after(S, T, o, n):
        for i in range(3): check_toggles(S[i], T[i], f'after call {n + 1} {o}, set {i}')
    crowds(ctx, US, 'many ranges', after, (300, 8000))

    # every pair of subsets of a tiny universe at each end of the code space, through every bulk and range operation
    def small():
        for base in (0, 0xd7fe, 0xfffd, 0x10fffb):
            for x in range(32):
                for y in range(32):
                    ctx.current = (hex(base), x, y)
                    mx, my = x << base, y << base
                    for k in ('addAll', 'removeAll', 'retainAll', 'complementAll'):
                        a, b = US(), US()
                        for j in range(5):
                            if x >> j & 1: a.add(base + j)
                            if y >> j & 1: b.add(base + j)
                        getattr(a, k)(b)
                        check_members(a, bulk(k, mx, my), f'{k} of {show(mx)} with {show(my)}')
                        check_members(b, my, f'argument of {k}')
                    ctx.count(4)
                for lo in range(5):
                    for hi in range(lo, 5):
                        for k in ('addRange', 'removeRange', 'retainRange', 'complementRange'):
                            ctx.current = (k, hex(base), x, lo, hi)
                            a = US()
                            for j in range(5):
                                if x >> j & 1: a.add(base + j)
                            getattr(a, k)(base + lo, base + hi)
                            m = x << base
                            w = mask(base + lo, base + hi)
                            m = m | w if k == 'addRange' else m & ~w if k == 'removeRange' else m & w if k == 'retainRange' else m ^ w
                            check_members(a, m, f'{k}({base + lo:#x}, {base + hi:#x}) of {show(x << base)}')
                            ctx.count()
        ctx.label('exhaustive small-universe operations', 4 * 32 * (32 * 4 + 15 * 4))
    ctx.part('small universe', small)
