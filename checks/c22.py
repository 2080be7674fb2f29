"""Reading an ICU data package."""
import random, struct
from hypothesis import strategies as st
from vp import core, env, icudata
from vp.core import Violation

PID = 'C22'
RULE = ('A case is a generated data package: items with generated names, header lengths, contents and gaps between them. Every item is found '
        'under its name and read back. Non-trivial: at least 2 items with contents; distinct by package.')
ASSUME = ['Packages are well formed little-endian .dat files, the form ICU ships for this platform.',
          'Item names are ASCII; the package prefix is the part of a table entry before the first slash.']


def load(ctx):
    icudata.overlay(icudata.pack(icudata.system_items()))
    icudata.mod('ICUDataFile')


NAME = st.one_of(st.sampled_from(['unames.icu', 'nfkc.nrm', 'coll/root.res', 'brkitr/en.res', 'a', 'zone/tzdbNames.res', 'cnvalias.icu']),
                 st.text('abcdefghijklmnopqrstuvwxyz_.-0123456789ABC/', min_size=1, max_size=24),
                 st.tuples(st.text('abcABC/_', min_size=1, max_size=8), st.sampled_from(['.icu', '.res', '.nrm'])).map(''.join),
                 st.tuples(st.sampled_from(['a', 'Long.', 'dir/']), st.sampled_from([31, 63, 99, 100, 127, 128, 254, 300])).map(lambda t: (t[0] * t[1])[:t[1]]))


BODY = st.one_of(st.binary(max_size=200), st.tuples(st.integers(0, 99), st.sampled_from([60, 65, 100, 255, 256, 257, 1000, 4096, 70000])).map(lambda t: random.Random(t[0]).randbytes(t[1])))


def cuts(body):
    """Pieces of an item, some with the same start, some with the same end."""
    n = len(body)
    return [(0, n // 2), (0, n), (0, n // 3), (n // 3, n), (n // 3, n // 2), (n // 2, n), (n // 2, n // 2), (0, 0), (0, n)]


def crowd(seed):
    """A package of many items."""
    r = random.Random(seed)
    n = r.choice([r.randrange(13, 250), 255, 256, 257, r.randrange(258, 700)])
    names = sorted({''.join(r.choice('abcdefgh_./0123') for _ in range(r.randrange(1, 30))) for _ in range(n)} | {f'n{i}.res' for i in range(n)})[:n]
    order = names[:]
    if r.random() < .5: r.shuffle(order)
    return {x: dict(fmt=r.randbytes(4), comment=r.choice([b'', b'c']), fv=(1, 2, 3, r.randrange(256)), dv=(r.randrange(256), 0, 0, 0), body=r.randbytes(r.choice([0, 1, 17, 40, 70, 300])),
                    length=None) for x in names}, r.choice(['icudt67l', 'p']), b'many', [r.choice([0, 0, 1]) for _ in names], order, None


def run(ctx):
    @st.composite
    def packages(draw):
        names = draw(st.lists(NAME, min_size=0, max_size=12, unique=True))
        its = {}
        for n in names:
            its[n] = dict(fmt=draw(st.binary(min_size=4, max_size=4)), comment=draw(st.binary(max_size=40).filter(lambda b: 0 not in b)),
                          fv=draw(st.tuples(*[st.integers(0, 255)] * 4)), dv=draw(st.tuples(*[st.integers(0, 255)] * 4)), body=draw(BODY),
                          length=draw(st.sampled_from([None, None, 32, 48, 80, 256, 0x1000, 26, 36, 41, 60, 77, 0x1001])))
        comment = draw(st.binary(max_size=60).filter(lambda b: 0 not in b))
        order = draw(st.sampled_from([sorted(names), sorted(names, reverse=True), names]))
        return its, draw(st.sampled_from(['icudt67l', 'icudt74l', 'x', 'mypackage'])), comment, draw(st.lists(st.integers(0, 3), max_size=12)), order, \
            draw(st.sampled_from([None, None, 128, 512, 40, 90, 100, 133]))

    def body(t):
        its, prefix, comment, gaps, order, length = t
        raw = {n: icudata.header(d['fmt'], d['length'] if d['length'] and d['length'] >= 24 + len(d['comment']) + 1 else None, d['comment'], d['fv'], d['dv']) + d['body']
               for n, d in its.items()}
        package = icudata.pack(raw, prefix, length, comment, gaps, order)
        icudata.overlay(package)
        M = icudata.mod('ICUDataFile')
        data = M.ICUData()
        for n in order:
            at, h = data.getDataOffsetAndHeader(n)
            if data.getDataOffset(n) != at: raise Violation(f'{n}: two offsets, {data.getDataOffset(n)} and {at}')
            if package[at:at + len(raw[n])] != raw[n]: raise Violation(f'{n}: offset {at:#x} is not where the item is')
            d = its[n]
            hl, = struct.unpack_from('<H', raw[n])
            got = (h.headerLength, h.magic1, h.magic2, h.infoSize, h.reservedWord, h.isBigEndian, h.charsetFamily, h.sizeofUChar, h.reservedByte,
                   bytes(h.dataFormat, 'latin-1') if isinstance(h.dataFormat, str) else bytes(h.dataFormat),
                   (h.fvMajor, h.fvMinor, h.fvMilli, h.fvMicro), (h.dvMajor, h.dvMinor, h.dvMilli, h.dvMicro))
            want = (hl, 0xda, 0x27, 20, 0, 0, 0, 2, 0, d['fmt'], d['fv'], d['dv'])
            if got != want: raise Violation(f'{n}: header read as {got}, it is {want}')
            start = at + h.headerLength
            if data.getData(start, start + len(d['body'])) != d['body']: raise Violation(f'{n}: contents differ')
            for i, j in cuts(d['body']):
                if data.getData(start + i, start + j) != d['body'][i:j]: raise Violation(f'{n}: bytes {i} to {j} differ')
            for k in range(0, len(d['body']), 7 if len(d['body']) < 1000 else 997):
                if 0 in d['body'][k:]:
                    w = d['body'][k:d['body'].index(0, k)].decode('latin-1')
                    if data.getString(start + k) != w: raise Violation(f'{n}: the string at {k} is read as {data.getString(start + k)!r}, it is {w!r}')
            ctx.count()
        # a second reader sees the same file
        other = M.ICUData()
        for n in order:
            if other.getDataOffset(n) != data.getDataOffset(n): raise Violation(f'{n}: two readers disagree')
        others = [f(n) for n in order[:8] for f in (str.lower, str.upper, str.swapcase, lambda n: n[:-1], lambda n: n + ' ', lambda n: '/' + n, lambda n: n.rsplit('/')[-1])]
        for n in ('no such item', prefix + '/' + order[0] if order else 'x', '', prefix, *others):
            if n in its: continue
            try: r = data.getDataOffset(n)
            except KeyError: continue
            raise Violation(f'the item {n!r} is not in the package and has offset {r}')
        ctx.label(f'{min(len(order), 4)}{"+" if len(order) > 3 else ""} items')
        ctx.case(package, sum(bool(d['body']) for d in its.values()) >= 2, sample=f'{prefix}: {[(n, len(raw[n])) for n in order]}')
    ctx.given('packages', packages(), body, (500, 8000))
    ctx.many('packages of many items', lambda s: body(crowd(s)), (150, 1500))
