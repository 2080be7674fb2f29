"""Symbolic constants."""
import json
from hypothesis import strategies as st
from vp import core, env, icudata, ucd
from vp.core import Violation, VERIF

PID = 'C25'
RULE = ("A case is one symbolic constant of one module, in an order drawn from the seed, or one generated combination of category masks asked of "
        'one code point. Non-trivial: the constant is not 0, or the code point is assigned; distinct by module and name.')
ASSUME = ["oracle/constants.json holds the values a C compiler gives ICU's public headers; those of its private headers were checked by hand.",
          'Constants of the data formats (oracle/private_constants.json) are internal to their modules: one that is not there is not missed.']
MASKS = ['L', 'M', 'N', 'Z', 'C', 'P', 'S', 'LC']


def load(ctx):
    global D, Private
    D = json.load(open(f'{VERIF}/oracle/constants.json'))
    for m in D: env.mod(m)
    env.mod('CharProps')
    Private = json.load(open(f'{VERIF}/oracle/private_constants.json'))
    icudata.overlay(icudata.pack(dict(icudata.system_items())))
    for m in Private: icudata.mod(m)


def run(ctx):
    import random
    order = [(m, n) for m in D for n in D[m]]
    random.Random(ctx.seed).shuffle(order)
    bad = set()
    def one(m, n):
        ctx.current = f'{m}.{n}'
        M = env.mod(m)
        if not hasattr(M, n): raise Violation(f'{m}.{n} is not defined')
        v = getattr(M, n)
        if v != D[m][n]: raise Violation(f'{m}.{n} is {v!r}, ICU defines {D[m][n]!r}')
        ctx.case((m, n), v not in (0, ''), sample=f'{m}.{n} = {v!r}', label=m)
    for m, n in order:
        if m in bad: continue
        before = len(ctx.violations)
        ctx.part(m, one, m, n)
        if len(ctx.violations) > before: bad.add(m)

    def format_constants(m):
        for n, want in Private[m].items():
            ctx.current = f'{m}.{n}'
            space = icudata.mod(m)
            for part in n.split('.')[:-1]: space = getattr(space, part, None)
            v = getattr(space, n.split('.')[-1], want)
            if v != want: raise Violation(f'{m}.{n} is {v!r}, ICU defines {want!r}')
            ctx.case(('format', m, n), want != 0, sample=f'{m}.{n} = {v!r}', label='data formats')
    for m in Private: ctx.part('format constants ' + m, format_constants, m)

    P, G, U = env.mod('CharProps'), env.mod('GeneralCategories'), env.mod('uchar_h')
    cats = ['Cn', 'Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Mn', 'Me', 'Mc', 'Nd', 'Nl', 'No', 'Zs', 'Zl', 'Zp', 'Cc', 'Cf', 'Co', 'Cs', 'Pd', 'Ps', 'Pe', 'Pc', 'Po',
            'Sm', 'Sc', 'Sk', 'So', 'Pi', 'Pf']
    gc = ucd.values('gc')
    def masks(t):
        c, groups, singles = t
        for M, pre in ((G, 'GC'), (U, 'U_GC')):
            m = 0
            for g in groups: m |= getattr(M, f'{pre}_{g}_MASK')
            for s in singles: m |= getattr(M, f'{pre}_{cats[s].upper()}_MASK')
            cat = cats[gc[c]]
            want = any(cat in ('Lu', 'Ll', 'Lt') if g == 'LC' else cat[0] == g for g in groups) or gc[c] in singles
            if bool(m & P.gcMask(gc[c])) != want or bool(m & U.U_MASK(gc[c])) != want or bool(m >> P.getGeneralCategory(c) & 1) != want:
                raise Violation(f'U+{c:04X} is {cat}; masks {groups} {[cats[s] for s in singles]} of {pre} say {bool(m & P.gcMask(gc[c]))}')
        ctx.case(t, gc[c] != 0, label='mask combinations')
    ctx.given('masks', st.tuples(env.code_points(), st.lists(st.sampled_from(MASKS), max_size=4, unique=True), st.lists(st.integers(0, 29), max_size=4, unique=True)),
              masks, (1500, 20000))
