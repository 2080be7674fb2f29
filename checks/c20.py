"""Iteration over all character names."""
import random
from vp import icudata, unames
from vp.core import Violation
from checks import c19

PID = 'C20'
RULE = ('A case is the complete iteration over the names of one names file (the system ICU data, or a generated one) for one name choice. '
        'Non-trivial: the file has a name of that kind and an algorithmic range. Distinct by file and choice.')
ASSUME = c19.ASSUME[:1] + c19.ASSUME[2:]


def load(ctx): c19.load(ctx)


def compare(got, want):
    codes = [c for c, _ in got]
    if [(c, n) for c, n in got] == sorted(want.items()): return
    miss = sorted(set(want) - set(codes))
    if miss: raise Violation(f'{len(miss)} names are never iterated, first U+{miss[0]:04X} {want[miss[0]]!r}')
    more = [c for c, n in got if c not in want]
    if more: raise Violation(f'U+{more[0]:04X} is iterated but has no name')
    if len(set(codes)) < len(codes): raise Violation(f'{len(codes) - len(set(codes))} code points are iterated twice')
    for c, n in got:
        if want[c] != n: raise Violation(f'U+{c:04X} is iterated with {n!r}, its name is {want[c]!r}')
    raise Violation(f'not in code point order')


def run(ctx):
    N = c19.CharNames
    import multiprocessing as mp
    for ch in (0, 1, 3):
        with mp.get_context('fork').Pool(8) as pool:
            table = sum(pool.map(c19._icu_names, [(ch, a) for a in range(0, 0x110000, 0x8000)]), [])
        want = {c: n for c, n in enumerate(table) if n}
        def whole():
            ctx.current = f'nameIterator({ch})'
            compare(list(N.nameIterator(ch)), want)
            if ch == 0: compare(list(N.nameIterator()), want)
            ctx.count(len(want)); ctx.nontrivial_extra += len(want)
            ctx.label(f'choice {ch} names of the system data', len(want))
        ctx.part(f'system data, choice {ch}', whole)

    def body(spec):
        X = c19.load_names(spec.item(), others=False)
        for ch in (0, 1, 3, 4):
            want = spec.named(ch)
            compare(list(X.nameIterator(ch)), want)
            # two iterations at once do not disturb each other
            if ch == 0:
                a, b, both = X.nameIterator(ch), X.nameIterator(ch), []
                for x in a:
                    y = next(b, None)
                    if x != y: raise Violation(f'two interleaved iterations differ: {x} and {y}')
            ctx.case((sorted(spec.fields.items()), spec.algs, ch), bool(want) and bool(spec.algs), label=f'choice {ch}',
                     sample=f'choice {ch}, {len(want)} names, ranges {[(hex(a), hex(b)) for a, b, _ in spec.algs]}')
        # iterations over names of several kinds in turn, names asked in between
        r = random.Random(len(repr(spec.fields)))
        kinds = [r.choice([0, 0, 1, 2, 3, 4]) for _ in range(r.randint(2, 4))]
        its, seen, live = [X.nameIterator(k) for k in kinds], [[] for _ in kinds], list(range(len(kinds)))
        for _ in range(6000):
            if not live: break
            k = r.choice(live)
            for _ in range(r.choice([1, 1, 1, 2, 5, 40])):
                x = next(its[k], None)
                if x is None: live.remove(k); break
                seen[k].append(x)
            if r.random() < .1:
                ch = r.randint(0, 4)
                if seen[k]: X.getCharName(seen[k][-1][0], ch)
                if r.random() < .1: X.charFromName('NO SUCH NAME', ch)
        for k, (ch, got) in enumerate(zip(kinds, seen)):
            want = spec.named(ch) if ch != 2 else dict(list(X.nameIterator(2)))
            if k not in live: compare(got, want)
            elif got != sorted(want.items())[:len(got)]: raise Violation(f'iterations of kinds {kinds} in turn: that of kind {ch} yields {[x for x, y in zip(got, sorted(want.items())) if x != y][:3]}')
        ctx.label('iterations of several kinds in turn')
    from hypothesis import strategies as st
    ctx.given('generated names', unames.specs(), body, (250, 4000))
