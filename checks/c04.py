"""Operators build new sets and leave operands alone; mutators return the set they changed; copies share nothing."""
import copy, functools, pickle
from hypothesis import strategies as st
from vp import env
from vp.core import Violation
from vp.setmodel import *
from checks import c01

PID = 'C04'
RULE = ('A case is a pool of sets and a generated sequence of pure operations, in-place operations, copies and later mutations of '
        'results and operands, with every set tracked by its own model. Non-trivial: some pure operation on two sets with '
        'different, non-empty members is followed by a mutation of an operand or of its result; distinct by sequence.')
ASSUME = ['A subclass of UnicodeSet is not used as an operand.', 'Copies are those of UnicodeSet(s), copy.copy, copy.deepcopy and pickle.']

PURE = ['|', '&', '-', '^', 'union', 'intersection', 'difference', 'symmetric_difference', 'copy', 'copy.copy', 'deepcopy', 'pickle']
COPIES = ('copy', 'copy.copy', 'deepcopy', 'pickle')
IN_PLACE = ['|=', '&=', '-=', '^=', 'addAll', 'retainAll', 'removeAll', 'complementAll']
MUT = ['add', 'remove', 'retain', 'flip', 'addRange', 'removeRange', 'retainRange', 'complementRange', 'complement', 'clear']


def load(ctx):
    c01.load(ctx)
    global US
    US = c01.US


@functools.cache
def cases(base):
    i = st.integers(0, 9)
    op = st.one_of(st.tuples(st.sampled_from(PURE), i, i), st.tuples(st.sampled_from(IN_PLACE), i, i),
                   st.tuples(st.sampled_from(MUT), i, spans(base)))
    return st.tuples(st.lists(setspecs(base), min_size=2, max_size=3), st.lists(op, min_size=2, max_size=16))


def pure(op, a, b):
    return (a | b if op == '|' else a & b if op == '&' else a - b if op == '-' else a ^ b if op == '^'
            else US(a) if op == 'copy' else copy.copy(a) if op == 'copy.copy' else copy.deepcopy(a) if op == 'deepcopy' else pickle.loads(pickle.dumps(a)) if op == 'pickle' else getattr(a, op)(b))


def pure_model(op, x, y):
    return (x | y if op in ('|', 'union', '|=', 'addAll') else x & y if op in ('&', 'intersection', '&=', 'retainAll')
            else x & ~y if op in ('-', 'difference', '-=', 'removeAll') else x if op in COPIES else x ^ y)


def run(ctx):
    def body(t):
        specs, ops = t
        pool = [list(build(US, sp)) for sp in specs]
        fresh, nt = set(), False
        for n, (op, i, x) in enumerate(ops):
            k = i % len(pool)
            s, m = pool[k]
            if op in PURE:
                j = x % len(pool)
                r = pure(op, s, pool[j][0])
                if any(r is p[0] for p in pool): raise Violation(f'step {n + 1}: {op} returned one of its operands or an older set')
                if m and pool[j][1] and m != pool[j][1]: fresh |= {k, j, len(pool)}
                pool.append([r, pure_model(op, m, pool[j][1])])
                what = f'{op} of {show(m)} and {show(pool[j][1])}'
            elif op in IN_PLACE:
                j = x % len(pool)
                o = pool[j][0]
                r = s
                if op == '|=': r |= o
                elif op == '&=': r &= o
                elif op == '-=': r -= o
                elif op == '^=': r ^= o
                else: r = getattr(s, op)(o)
                if r is not s: raise Violation(f'step {n + 1}: {op} returned {r}, not the set it changed')
                nt |= k in fresh
                what = f'{op} of {show(m)} and {show(pool[j][1])}'
                pool[k][1] = pure_model(op, m, pool[j][1])
            else:
                a, b = x
                if op in ('add', 'remove', 'retain'): r = getattr(s, op)(a); w = mask(a, a)
                elif op == 'flip': r = s.complement(a); w = mask(a, a)
                elif op in ('complement', 'clear'): r = getattr(s, op)(); w = FULL
                else: r = getattr(s, op)(a, b); w = mask(a, b)
                if r is not s: raise Violation(f'step {n + 1}: {op}{x} returned {r!r}, not the set it changed')
                nt |= k in fresh
                pool[k][1] = (m | w if op.startswith('add') else m & ~w if op.startswith('remove') or op == 'clear'
                              else m & w if op.startswith('retain') else m ^ w)
                what = f'{op}{x} on {show(m)}'
            ctx.label('op ' + op)
            for q, (s2, m2) in enumerate(pool):
                check_members(s2, m2, f'step {n + 1} ({what}): set {q}')
        ctx.case(t, nt)
    ctx.given('aliasing', base_st.flatmap(cases), body, (1500, 25000))

    # sets of many ranges: results of pure operations are new and right, operands keep their members
    def after(S, T, o, n):
        what = f'after call {n + 1} {o}'
        for i in range(3): check_toggles(S[i], T[i], f'{what}, set {i}')
        if o[1] == n % 3: return
        i, j = o[1], n % 3
        a, b = S[i], S[j]
        for op in PURE_OPS[n % 2::2]:
            r = pure(op, a, b)
            if r is a or r is b: raise Violation(f'{what}: {op} returned an operand')
            check_toggles(r, combine(T[i], T[j], JOIN[BULK[op]]), f'{what}: set {i} {op} set {j}')
            r.add(0x10ffff).remove(0).complement(7)
            r.clear()
        for i in range(3): check_toggles(S[i], T[i], f'{what}, set {i} after pure operations')
        if US(a).complement() | US(b).complement() != US(a & b).complement(): raise Violation(f'{what}: ~a | ~b is not ~(a & b): a={a} b={b}')
        if (a | b) - (a & b) != a ^ b or (a - b) | (b - a) != a ^ b: raise Violation(f'{what}: (a | b) - (a & b) is not a ^ b: a={a} b={b}')
    crowds(ctx, US, 'many ranges', after, (150, 5000))

    # algebra: identities any set algebra satisfies, on generated triples
    def laws(t):
        a, b, c = (build(US, sp)[0] for sp in t)
        full = US().complement()
        def same(x, y, law):
            if not (x == y) or str(x) != str(y): raise Violation(f'{law}: {x} is not {y} for a={a} b={b} c={c}')
        same(a | b, b | a, 'a|b = b|a'); same(a & b, b & a, 'a&b = b&a'); same(a ^ b, b ^ a, 'a^b = b^a')
        same((a | b) | c, a | (b | c), 'union associative'); same((a & b) & c, a & (b & c), 'intersection associative')
        same((a ^ b) ^ c, a ^ (b ^ c), 'xor associative'); same(a & (b | c), (a & b) | (a & c), 'distributive')
        same(a - b, a & US(b).complement(), 'a-b = a & ~b'); same(a ^ b, (a | b) - (a & b), 'a^b = (a|b)-(a&b)')
        same(US(a | b).complement(), US(a).complement() & US(b).complement(), 'De Morgan')
        same(US(a).complement().complement(), a, '~~a = a'); same(a | a, a, 'a|a = a'); same(a & a, a, 'a&a = a')
        same(a - a, US(), 'a-a = {}'); same(a ^ a, US(), 'a^a = {}'); same(a | full, full, 'a|U = U'); same(a & full, a, 'a&U = a')
        same(a ^ full, US(a).complement(), 'a^U = ~a'); same(a - full, US(), 'a-U = {}'); same(full - a, US(a).complement(), 'U-a = ~a')
        if a.size() + b.size() != (a | b).size() + (a & b).size(): raise Violation(f'|a|+|b| != |a∪b|+|a∩b| for a={a} b={b}')
        ctx.case(('laws', t), all(t) and len({str(a), str(b), str(c)}) == 3, label='algebra laws')
    ctx.given('laws', base_st.flatmap(lambda b: st.tuples(setspecs(b), setspecs(b), setspecs(b))), laws, (500, 10000))
