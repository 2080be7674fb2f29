"""UTrie2 lookup returns the value the trie was built with, for every code point of any well-formed trie."""
import random
from hypothesis import strategies as st
from vp import env, utrie2
from vp.core import Violation, HarnessError

PID = 'C06'
RULE = ('A case is a generated map from code points to 16-bit values, serialised as a UTrie2 by an independent builder (shared and '
        'overlapping blocks, null index-2 block or none, any highStart), and looked up at every run edge, block edge and random points. '
        'Non-trivial: at least 4 runs, with a change inside a data block; distinct by map and layout options.')
ASSUME = ['Tries follow the 16-bit frozen layout of ICU utrie2.h; lookups get non-negative integers.']


def load(ctx):
    global UTrie2
    UTrie2 = env.mod('Utrie2').UTrie2


def points(runs, extra):
    out = {0, 0x7f, 0x80, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10fffe, 0x10ffff, 0x110000, 0x110001, 0x7fffffff}
    for a, _ in runs:
        out |= {a - 1, a, a + 1, a | 31, (a | 31) + 1, a & ~31, (a | 0x7ff) + 1, a | 0x7ff}
    return sorted(c for c in out | set(extra) if c >= 0)


def run(ctx):
    import bisect
    def lookups(spec, extra):
        b = utrie2.build(**spec)
        trie = b.make(UTrie2)
        starts = [r[0] for r in b.runs]
        for c in points(spec['runs'], extra):
            w = b.error if c > 0x10ffff else b.runs[bisect.bisect_right(starts, c) - 1][2]
            got = trie.get(c)
            if got != w: raise Violation(f'get({c:#x}) is {got}, the trie was built with {w}; highStart={b.high_start:#x}')
            ctx.count()
        ctx.label('highStart ' + ('below supplementary' if b.high_start <= 0x10000 else 'at the end' if b.high_start == 0x110000 else 'supplementary'))
        if spec.get('units'): ctx.label('with lead surrogate code unit values')
        ctx.case(sorted(spec.items(), key=str), len(spec['runs']) >= 4 and any(a % 32 for a, _ in spec['runs']))

    def body(t): lookups(*t)
    ctx.given('lookup', st.tuples(utrie2.specs(), st.lists(st.integers(0, 0x10ffff), max_size=20)), body, (200, 4000))

    def rows(seed):
        r = random.Random(seed)
        spec, extra = utrie2.rich(seed), [r.randrange(0x110000) for _ in range(20)]
        try: lookups(spec, extra)
        except Violation:
            def fails(s):
                try: lookups(s, extra)
                except Violation: return True
                return False
            spec = utrie2.reduce_runs(spec, fails)
            ctx.current = spec, extra
            lookups(spec, extra)
            raise
    ctx.many('rows of blocks', rows, (1000, 12000))

    def pair(seed):
        # two tries of the same shape, asked in turn
        r = random.Random(seed)
        spec = utrie2.rich(seed)
        other = utrie2.flip(spec)
        b, o = utrie2.build(**spec), utrie2.build(**other)
        ctx.current = spec, other
        one, two = b.make(UTrie2), o.make(UTrie2)
        cs = points(spec['runs'], [])
        for c in r.sample(cs, min(len(cs), 60)):
            for trie, x in ((one, b), (two, o), (one, b)):
                w = utrie2.value_at(x, c)
                got = trie.get(c)
                if got != w: raise Violation(f'get({c:#x}) is {got} after it was asked of another trie, the trie was built with {w}')
                ctx.count()
        ctx.case((seed, 'pair'), len(spec['runs']) >= 4, label='two tries in turn')
    ctx.many('two tries', pair, (200, 3000))

    def dense(seed):
        spec = utrie2.dense(seed)
        ctx.label('dense tries')
        lookups(spec, [])
    ctx.many('dense', dense, (3, 60))

    # complete sweep of some generated tries
    def sweep(spec):
        b = utrie2.build(**spec)
        trie = b.make(UTrie2)
        for a, z, v in b.runs:
            for c in range(a, z):
                if trie.get(c) != v: raise Violation(f'get({c:#x}) is {trie.get(c)}, the trie was built with {v}')
        ctx.count(0x110000)
        ctx.case(('sweep', sorted(spec.items(), key=str)), len(spec['runs']) >= 4, label='complete sweeps')
    ctx.given('sweep', utrie2.specs(), sweep, (6, 60), shrink=False)
