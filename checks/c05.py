"""Arguments beyond the code space are pinned to it, and no argument can corrupt a set."""
import functools
from hypothesis import strategies as st
from vp import env
from vp.core import Violation
from vp.setmodel import *
from checks import c01

PID = 'C05'
RULE = ('A case is a set and a sequence of calls whose arguments may be negative, above U+10FFFF, reversed or empty ranges, or of the '
        'wrong type. Non-trivial: at least one call has an argument outside 0..10FFFF or an empty range, on a non-empty set; '
        'distinct by sequence.')
ASSUME = ['A non-empty range is pinned end by end (ICU UnicodeSet); a reversed or empty range is empty, so it adds, removes and '
          'complements nothing and intersecting with it leaves nothing.']

wild = st.one_of(st.integers(-5, 5), st.integers(0x10fffb, 0x110004), st.sampled_from([-(1 << 40), -0x110000, 1 << 21, 1 << 31, 1 << 40]),
                 st.integers(0, 0x10ffff))


def load(ctx):
    c01.load(ctx)
    global US
    US = c01.US


no_number = st.sampled_from(['a', '', None, (1, 2), [3], [], b'x', {4}, range(3)])


@functools.cache
def cases(base):
    one = st.one_of(wild, cps(base))
    pair = st.one_of(st.tuples(one, one), st.tuples(one, st.integers(-3, 3)).map(lambda t: (t[0], t[0] + t[1])))
    ops = st.one_of(st.tuples(st.sampled_from(['add', 'remove', 'retain', 'complement', 'new', 'contains']), one, st.none()),
                    st.tuples(st.sampled_from(['addRange', 'removeRange', 'retainRange', 'complementRange', 'complementObj', 'newRange', 'containsRange']), pair).map(lambda t: (t[0], *t[1])),
                    st.tuples(st.sampled_from(['bad complement', 'bad contains', 'bad new']),
                              st.sampled_from(['a', 1.5, (1, 2), [3], b'x']), st.none()),
                    st.tuples(st.sampled_from(['bad ' + n for n in 'add remove retain'.split()]), no_number, st.none()),
                    st.tuples(st.sampled_from(['bad ' + n + 'Range' for n in 'add remove retain complement'.split()]), no_number, one),
                    st.tuples(st.sampled_from(['bad ' + n for n in 'addAll removeAll retainAll complementAll union intersection difference symmetric_difference __or__ __iand__ __isub__'.split()]),
                              st.one_of(no_number, st.integers(-3, 0x110003)), st.none()))
    return st.tuples(setspecs(base), st.lists(ops, min_size=1, max_size=10))


def run(ctx):
    def body(t):
        spec, ops = t
        s, m = build(US, spec)
        nt = False
        for n, (op, a, b) in enumerate(ops):
            what = f'call {n + 1} {op}({a!r}{"" if b is None else f", {b!r}"}) on {show(m)}'
            if op.startswith('bad'):
                try:
                    if op == 'bad new': US(a)
                    elif b is not None and n % 2: getattr(s, op[4:])(b, a)
                    else: getattr(s, op[4:])(*((a,) if b is None else (a, b)))
                except TypeError: pass
                except AttributeError:
                    if op in ('bad new', 'bad complement', 'bad contains'): raise
                else: raise Violation(f'{what}: accepted')
                check_members(s, m, what)
                continue
            lo, hi = (a, a) if b is None else (a, b)
            w = 0 if lo > hi else mask(pin(lo), pin(hi))
            out = lo < 0 or hi < 0 or lo >= HIGH or hi >= HIGH or lo > hi
            nt |= out and m != 0
            ctx.label(('out of range ' if out else 'in range ') + op)
            r = s
            if op in ('add', 'remove', 'retain'): r = getattr(s, op)(a)
            elif op == 'complement': r = s.complement(a)
            elif op == 'complementObj': r = s.complement(range(a, b + 1))
            elif op == 'new': s = r = US(a); m = 0
            elif op == 'newRange': s = r = US(range(a, b + 1)); m = 0
            elif op == 'containsRange':
                if lo <= hi:
                    got = s.contains(range(a, b + 1))
                    if bool(got) != (0 <= lo and hi < HIGH and m & w == w) or (range(a, b + 1) in s) != got: raise Violation(f'{what}: {got}')
                w = 0
            elif op == 'contains':
                if bool(s.contains(a)) != (0 <= a < HIGH and bool(m >> a & 1)): raise Violation(f'{what}: {s.contains(a)}')
                w = 0
                if s.indexOf(a) is not None and not (0 <= a < HIGH): raise Violation(f'{what}: indexOf is {s.indexOf(a)}')
            else: r = getattr(s, op)(a, b)
            if r is not s: raise Violation(f'{what}: returned {r!r}')
            if op.startswith(('add', 'new')): m |= w
            elif op.startswith('remove'): m &= ~w
            elif op.startswith('retain'): m &= w
            elif op.startswith('complement'): m ^= w
            check_members(s, m, what)
            if m and (s.getRangeStart(0) < 0 or s.getRangeEnd(s.getRangeCount() - 1) >= HIGH): raise Violation(f'{what}: {s}')
            # the set must stay usable: complementing twice and copying change nothing
            if US(s).complement().complement() != s: raise Violation(f'{what}: complement of complement of {s} differs')
        ctx.case(t, nt)
    ctx.given('pinning', base_st.flatmap(cases), body, (1500, 25000))

    def after(S, T, o, n):
        i = o[1]
        t = T[i]
        mid = t[len(t) // 2] if t else 0x41
        for k, (a, b) in enumerate(((-1 - n, mid), (mid, HIGH + n), (-5, HIGH + 5), (HIGH, HIGH + 9), (-9, -1), (mid, mid - 1), (-3 - n % 2, -3 - n % 2), (HIGH + n, HIGH + n), (1 << 40, 1 << 40))):
            if (k + n) % 3: continue
            w = [pin(a), pin(b) + 1] if a <= b else []
            for f in ('add', 'remove', 'retain', 'complement'):
                s = US(S[i])
                r = getattr(s, f + 'Range')(a, b)
                if r is not s: raise Violation(f'{f}Range({a:#x}, {b:#x}) returned {r!r}')
                check_toggles(s, combine(t, w, JOIN[f]), f'after call {n + 1} {o}: {f}Range({a:#x}, {b:#x})')
                if a == b:
                    s = US(S[i])
                    getattr(s, f)(a)
                    check_toggles(s, combine(t, w, JOIN[f]), f'after call {n + 1} {o}: {f}({a:#x})')
    crowds(ctx, US, 'many ranges', after, (100, 3000))
