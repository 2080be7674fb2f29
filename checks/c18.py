"""Decompositions: full and raw mappings of normalization data."""
import copy, ctypes, multiprocessing as mp, unicodedata
from hypothesis import strategies as st
from vp import core, env, icu, icudata, norm2, ucd, words
from vp.core import Violation

PID = 'C18'
RULE = ('A case is the full or raw decomposition of one code point: all of U+0000..U+10FFFF for the built-in canonical data and for the four '
        'data files of the system ICU, or the points of interest of generated normalization data. Non-trivial: the code point decomposes '
        '(or, for generated data, at least one mapping and one algorithmic mapping).')
ASSUME = ['oracle/unicode13.json.gz gives Unicode 13 canonical decompositions; the data file is rebuilt from libicudata.so.74 and ICU 74 is '
          'the oracle for it.', 'A raw decomposition to the empty string may be reported as None (the code does so on purpose); a full one '
          'may not.', 'Generated data follow the layout of ICU normalizer2impl.h.']

OTHER = {c: c + 1 for c in (0x41, 0x7a, 0x300, 0x20ac, 0x5b57, 0x10400, 0x1d165, 0x2f800, 0xfb)}


def load(ctx):
    global N
    icudata.overlay(icudata.pack(icudata.system_items()))
    N = icudata.mod('Normalizer2')


def _icu(t):
    name, raw, a = t
    L, ec = icu.lib(), ctypes.c_int(0)
    inst = L.unorm2_getInstance_74(None, name.encode(), 0, ctypes.byref(ec))
    if ec.value > 0: raise core.HarnessError(f'unorm2_getInstance({name}): {ec.value}')
    f = L.unorm2_getRawDecomposition_74 if raw else L.unorm2_getDecomposition_74
    buf, out = (ctypes.c_uint16 * 64)(), []
    mv = memoryview(buf).cast('B')
    for c in range(a, a + 0x8000):
        n = f(inst, c, buf, 64, ctypes.byref(ec))
        out.append(None if n < 0 else bytes(mv[:2 * n]).decode('utf-16-le', 'surrogatepass'))
    return out


def run(ctx):
    icu.lib()
    J = ucd.Job
    jobs = []
    def table(name):
        t = [None] * 0x110000
        for c, s in ucd.strings(name).items(): t[c] = s
        return t
    nfd, rawc = table('nfd'), table('rawc')
    jobs += [J('nfc full', N.nfcTrie.getDecomposition, nfd), J('nfc raw', N.nfcTrie.getRawDecomposition, rawc)]
    with mp.get_context('fork').Pool(8) as pool:
        for name, trie in (('nfkc', N.nfkcTrie), ('nfkc_cf', N.nfkc_cfTrie), ('uts46', None), ('nfkc_scf', None)):
            holder = []
            def make(): holder.append(trie or N.Normalizer2.createFromFileData(name))
            ctx.part(f'reading {name}', make)
            if not holder: continue
            full, raw = (sum(pool.map(_icu, [(name, r, a) for a in range(0, 0x110000, 0x8000)]), []) for r in (0, 1))
            jobs.append(J(f'{name} full', holder[0].getDecomposition, full, what='ICU says'))
            jobs.append(J(f'{name} raw', holder[0].getRawDecomposition, [r or None for r in raw], norm=lambda v: v or None, what='ICU says'))
    # Unicode 13 compatibility decompositions, for the characters of Unicode 13
    known = [a != (0, 0) for a in ucd.values('age')]
    nfkd, rawk = table('nfkd'), table('rawk')
    def only13(f): return lambda c: f(c) if known[c] else None
    jobs += [J('nfkc full, Unicode 13', only13(N.nfkcTrie.getDecomposition), nfkd), J('nfkc raw, Unicode 13', only13(N.nfkcTrie.getRawDecomposition), rawk)]
    # what the stored 16-bit values say about a character
    T, L = N.nfcTrie, icu.lib()
    classes = [c for c in range(0x110000) if known[c] and not nfd[c] and (L.u_getCombiningClass_74(c) or L.u_getIntPropertyValue_74(c, 0x100e) == 2)]
    def members(cs):
        t = [False] * 0x110000
        for c in cs: t[c] = True
        return t
    truth = lambda f: lambda c: bool(f(T.getNorm16(c)))
    jobs += [J('nfc isDecompYes', truth(T.isDecompYes), [x is None for x in nfd], True),
             J('nfc isHangulLV', truth(T.isHangulLV), members(range(0xac00, 0xd7a4, 28)), False),
             J('nfc isHangulLVT', truth(T.isHangulLVT), members(c for c in range(0xac00, 0xd7a4) if (c - 0xac00) % 28), False),
             J('nfc isJamoL', truth(T.isJamoL), members(range(0x1100, 0x1113)), False),
             J('nfc isJamoVT', truth(T.isJamoVT), members([*range(0x1161, 0x1176), *range(0x11a8, 0x11c3)]), False),
             J('nfc isMaybeOrNonZeroCC', truth(T.isMaybeOrNonZeroCC), members(classes), False, what='ICU says')]
    # inert: no decomposition, combining class 0, part of no composition
    parts = {ord(x) for c in range(0x110000) if rawc[c] and len(rawc[c]) == 2 and unicodedata.normalize('NFC', rawc[c]) == chr(c) for x in rawc[c]}
    inert = [not (nfd[c] or c in parts or known[c] and L.u_getCombiningClass_74(c)) for c in range(0x110000)]
    jobs.append(J('nfc isInert', truth(T.isInert), inert, True))
    ucd.sweep_all(ctx, jobs)

    # repeated single-step decomposition ends in the full one
    some = [c for c in range(0x110000) if nfd[c]]
    def relate(c):
        for trie in (N.nfcTrie, N.nfkcTrie):
            full = trie.getDecomposition(c)
            raw = trie.getRawDecomposition(c)
            if (full is None) != (raw is None): raise Violation(f'U+{c:04X}: full {full!r}, raw {raw!r}')
            if full is None: continue
            s = raw
            for _ in range(20):
                t = ''.join(trie.getRawDecomposition(ord(x)) or x for x in s)
                if t == s: break
                s = t
            if sorted(s) != sorted(full): raise Violation(f'U+{c:04X}: raw decompositions lead to {s!r}, the full one is {full!r}')
            if any(trie.getDecomposition(ord(x)) is not None for x in full): raise Violation(f'U+{c:04X}: {full!r} decomposes further')
        ctx.case(c, True, label='relations')
    ctx.given('relations', st.one_of(st.sampled_from(some), st.integers(0xac00, 0xd7a3), env.code_points()), relate, (1000, 10000))

    def body(t):
        spec, extra, direct = t
        if direct:
            runs, ix, data = spec.build()
            trie = icudata.mod('CPTrie').CPTrie.createFromData(icu.cptrie_bytes(runs, 1, 1, 0, 0))
            X = N.Normalizer2(trie, ix, data)
            # other data of the same shape, asked in turn
            other = copy.copy(spec)
            other.mappings = {c: (kind, s.translate(OTHER), r and r.translate(OTHER), *more) for c, (kind, s, r, *more) in spec.mappings.items()}
            runs, ix, data = other.build()
            pairs = [(spec, X), (other, N.Normalizer2(icudata.mod('CPTrie').CPTrie.createFromData(icu.cptrie_bytes(runs, 1, 1, 0, 0)), ix, data)), (spec, X)]
        else:
            items = dict(icudata.system_items()); items['zz.nrm'] = spec.item()
            icudata.overlay(icudata.pack(items))
            pairs = [(spec, icudata.mod('Normalizer2').Normalizer2.createFromFileData('zz'))]
        probe = set(spec.mappings) | set(spec.deltas) | set(spec.deltas.values()) | set(spec.composing) | set(spec.ccc) | set(spec.maybe) | set(extra)
        probe |= {c + d for c in list(probe) for d in (-1, 1)} | {0, 0x41, 0xac00, 0xac01, 0xac1b, 0xac1c, 0xd7a3, 0xd7a4, 0xd800, 0xdbff, 0xdc00, 0x10ffff}
        for c in sorted(probe):
            if not 0 <= c <= 0x10ffff: continue
            for d, X in pairs:
                w, got = d.decomposition(c), X.getDecomposition(c)
                if got != w: raise Violation(f'getDecomposition({c:#x}) is {got!r}, the data say {w!r}')
                w, got = d.raw(c), X.getRawDecomposition(c)
                if (got or None) != (w or None): raise Violation(f'getRawDecomposition({c:#x}) is {got!r}, the data say {w!r}')
            ctx.count(2)
        ctx.label('from a file' if not direct else 'from arrays')
        ctx.case(repr(spec), bool(spec.mappings) and bool(spec.deltas))
    extra = st.lists(words.also(st, st.one_of(env.code_points(), st.integers(0xac00, 0xd7a3)), 'UnicodeData/Normalizer2.py'), max_size=10)
    ctx.given('generated data', st.tuples(norm2.specs(), extra, st.just(True)), body, (400, 8000))
    ctx.given('generated data files', st.tuples(norm2.specs(), extra, st.just(False)), body, (15, 200))
