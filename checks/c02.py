"""One representation per membership: equal members <=> equal sets, whatever the construction path."""
import functools
from hypothesis import strategies as st
from vp import env
from vp.core import Violation
from vp.setmodel import *
from checks import c01

PID = 'C02'
RULE = ('A case is a mutation history giving a set, a second construction path to the same members (range pieces in a random '
        'order by a random method), and one code point to flip. Non-trivial: the members form at least 2 runs and the second path '
        'has at least 3 steps; distinct by history and path.')
ASSUME = ['Sets are compared with UnicodeSet objects and with values of other types.']


def load(ctx):
    c01.load(ctx)
    global US
    US = c01.US


@functools.cache
def cases(base):
    return st.tuples(c01.histories(base), st.integers(0, 2), st.randoms(use_true_random=False),
                     st.sampled_from(['addRange', 'add', 'complement', 'complementRange', 'union', 'remove', 'overlap', 'xor']), cps(base))


def second_path(rng, m, how):
    """Another way to build exactly the members of m; returns the set and how many steps it took."""
    pieces = []
    for a, b in runs(FULL & ~m if how in ('complement', 'remove') else m):
        cuts = sorted({rng.randint(a, b) for _ in range(rng.randint(0, 3))})
        lo = a
        for c in cuts:
            pieces.append((lo, c)); lo = c + 1
        if lo <= b: pieces.append((lo, b))
    rng.shuffle(pieces)
    s = US()
    if how == 'addRange':
        for a, b in pieces: s.addRange(a, b)
    elif how == 'add':
        for a, b in pieces:
            if b - a < 40:
                pts = list(range(a, b + 1)); rng.shuffle(pts)
                for c in pts: s.add(c)
            else: s.addRange(a, b)
    elif how == 'complement':
        for a, b in pieces: s.addRange(a, b)
        s.complement()
    elif how == 'complementRange':
        for a, b in pieces: s.complementRange(a, b)
    elif how == 'union':
        for a, b in pieces: s = s | US(range(a, b + 1))
    elif how == 'remove':
        s = US(range(0, HIGH))
        for a, b in pieces:
            if a == b: s.remove(a)
            else: s.removeRange(a, b)
    elif how == 'overlap':
        for a, b in pieces: s.addRange(a, b)
        for a, b in pieces:
            if pieces: s.addAll(US(range(a, rng.randint(a, b) + 1)))
    else:
        for a, b in pieces: s ^= US(range(a, b + 1))
    return s, len(pieces)


def run(ctx):
    def body(t):
        (specs, ops), i, rng, how, flip = t
        S, M = map(list, zip(*[build(US, sp) for sp in specs]))
        for o in ops: c01.apply(S, M, o)
        s, m = S[i], M[i]
        two, steps = second_path(rng, m, how)
        what = f'members {show(m)}, second path {how}'
        ctx.case((specs, ops, i, how, str(two)), len(runs(m)) >= 2 and steps >= 3, label='second path ' + how)
        for a, b, w in ((s, two, 'history vs rebuilt'), (two, s, 'rebuilt vs history'), (s, US(s), 'set vs copy')):
            if not (a == b) or a != b: raise Violation(f'{what}: {w} compare unequal: {a} / {b}')
            if str(a) != str(b): raise Violation(f'{what}: {w} print differently: {a} / {b}')
            if a.getRanges() != b.getRanges() or a.getRangeCount() != b.getRangeCount():
                raise Violation(f'{what}: {w} have ranges {a.getRanges()} / {b.getRanges()}')
        check_members(two, m, what)
        for a, b in zip(runs(m), runs(m)[1:]):
            pass
        r = real_runs(two)
        for (a, b), (c, d) in zip(r, r[1:]):
            if not (a <= b and b + 1 < c <= d): raise Violation(f'{what}: ranges not ascending, disjoint and separated: {r}')
        # the other direction: different members never compare equal
        other = US(two); other.complementRange(flip, flip)
        if other == two or not (other != two) or s == other or str(other) == str(two):
            raise Violation(f'{what}: differs in U+{flip:04X} but compares equal')
        other.complementRange(flip, flip)
        if other != two: raise Violation(f'{what}: complementing U+{flip:04X} twice gives {other}')
        for j in range(3):
            for k in range(3):
                if (S[j] == S[k]) != (M[j] == M[k]): raise Violation(f'{S[j]} == {S[k]} is {S[j] == S[k]}')
        for alien in (None, 0, 'a', [HIGH], set(), object()):
            if s == alien or not (s != alien): raise Violation(f'{s} equals {alien!r}')
    ctx.given('equality', base_st.flatmap(cases), body, (1200, 20000))

    def after(S, T, o, n):
        i = o[1]
        what = f'after call {n + 1} {o}'
        fresh, back = US(), US()
        for a, b in t_runs(T[i]): fresh.addRange(a, b)
        for a, b in reversed(t_runs(T[i])): back.complementRange(a, b)
        for a, b, w in ((S[i], fresh, 'history vs rebuilt'), (back, S[i], 'rebuilt backwards vs history'), (fresh, back, 'two rebuilt sets')):
            if not (a == b) or a != b or str(a) != str(b) or a.getRanges() != b.getRanges():
                raise Violation(f'{what}: {w} differ: {a} / {b}')
        for j in range(3):
            if (S[i] == S[j]) != (T[i] == T[j]) or (S[i] != S[j]) != (T[i] != T[j]) or (str(S[i]) == str(S[j])) != (T[i] == T[j]): raise Violation(f'{what}: sets {i} and {j} compare wrong: {S[i]} / {S[j]}')
        t = T[i]
        for c in {t[-1] - 1, t[0], *(t[k * 7919 % len(t)] - k % 2 for k in range(n, n + 3)), t[len(t) * 3 // 4]} if t else {5}:
            if not 0 <= c < HIGH: continue
            other = US(fresh).complement(c)
            if other == S[i] or not (S[i] != other) or str(other) == str(S[i]): raise Violation(f'{what}: {S[i]} equals {other}')
    crowds(ctx, US, 'many ranges', after, (250, 6000))
