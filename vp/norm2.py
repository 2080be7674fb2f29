"""Generated normalization data in the form Normalizer2 takes (layout of ICU normalizer2impl.h), with what it means."""
import struct
from . import icu, words
from .icudata import item

MIN_NORMAL, JAMO_VT, CC = 0xfc00, 0xfe00, 0xfe02


def units(s): return list(struct.unpack(f'<{len(s.encode("utf-16-le")) // 2}H', s.encode('utf-16-le')))


class Norm:
    """mappings: {code point: (kind, string, raw string or None, word)} with kind 'yesno' or 'nono'; deltas: {code point: target};
    composing: code points with composition data only; ccc: {code point: class}; hangul: whether syllables decompose."""
    def __init__(self, **k): self.__dict__.update(k)
    def __repr__(self): return 'Norm(' + ', '.join(f'{k}={v!r}' for k, v in sorted(self.__dict__.items())) + ')'

    # -- meaning --------------------------------------------------------------------------------------
    def decomposition(self, c):
        if 0xd800 <= c <= 0xdbff: return None
        if c in self.mappings: return self.mappings[c][1]
        if c in self.deltas:
            t = self.deltas[c]
            return self.decomposition(t) if self.decomposes(t) else chr(t)
        if self.hangul and 0xac00 <= c <= 0xd7a3:
            s = c - 0xac00
            return chr(0x1100 + s // 588) + chr(0x1161 + s % 588 // 28) + (chr(0x11a7 + s % 28) if s % 28 else '')
        return None

    def raw(self, c):
        if 0xd800 <= c <= 0xdbff: return None
        if c in self.mappings: return self.mappings[c][2] if self.mappings[c][2] is not None else self.mappings[c][1]
        if c in self.deltas: return chr(self.deltas[c])
        if self.hangul and 0xac00 <= c <= 0xd7a3:
            s = c - 0xac00
            return chr(c - s % 28) + chr(0x11a7 + s % 28) if s % 28 else chr(0x1100 + s // 588) + chr(0x1161 + s // 28 % 21)
        return None

    def decomposes(self, c): return c in self.mappings or c in self.deltas or self.hangul and 0xac00 <= c <= 0xd7a3

    # -- data -----------------------------------------------------------------------------------------
    def build(self):
        """(runs of norm16 values, indexes, extra data)"""
        value, extra = {}, [0]          # offset 0 is unused: norm16 0 and 1 are inert
        extra.append(0)                 # JAMO_L == 2
        for c in self.composing:
            value[c] = len(extra) << 1
            extra += [0x1234, 0x8000 | c & 0x7fff]     # composition pairs, of no interest here
        min_yes_no = len(extra) << 1
        extra.append(0)                 # Hangul LV
        def put(c):
            kind, s, raw, word, spare = self.mappings[c]
            u = units(s)
            first = len(u) | (spare & 0x20) | (spare & 0x1f00)
            ru = None
            if raw is not None:
                ru = units(raw)
                # the short form replaces the first two units of the mapping by one unit
                if len(u) >= 2 and ru and ru[0] > 0x1f and ru[1:] == u[2:] and not 0xd800 <= ru[0] <= 0xdfff: before = [ru[0]]
                else: before = ru + [len(ru)]
                extra.extend(before); first |= 0x40
            if word is not None: extra.append(word); first |= 0x80
            value[c] = len(extra) << 1 | (c & 1)
            extra.append(first); extra.extend(u)
        for c in sorted(self.mappings):
            if self.mappings[c][0] == 'yesno': put(c)
        min_mappings_only = (len(extra) << 1)
        extra.append(0)                 # Hangul LVT
        min_no_no = len(extra) << 1
        for c in sorted(self.mappings):
            if self.mappings[c][0] == 'nono': put(c)
        limit_no_no = len(extra) << 1
        min_maybe = (MIN_NORMAL - (len(self.maybe) << 1)) & ~7
        center = (min_maybe >> 3) - 0x40 - 1
        for c, t in self.deltas.items():
            value[c] = (t - c + center) << 3 | (c & 7 & 6)
            assert limit_no_no <= value[c] < min_maybe, (hex(value[c]), hex(min_maybe))
        # the data may end anywhere below the first algorithmic mapping
        if self.deltas and self.full: limit_no_no = min(value[c] for c in self.deltas)
        for i, c in enumerate(self.maybe): value[c] = min_maybe + 2 * i
        for c, cc in self.ccc.items(): value[c] = CC + cc * 2 - 2 if cc else MIN_NORMAL
        maybe_data = [0x8001] * ((MIN_NORMAL - min_maybe) >> 1)
        if self.hangul:
            for c in range(0xac00, 0xd7a4): value[c] = min_yes_no if (c - 0xac00) % 28 == 0 else min_mappings_only | 1
        for c in range(0xd800, 0xdc00): value.setdefault(c, 1)
        runs, last = [(0, 1)], 1
        prev = None
        for c in sorted(value):
            if prev is not None and c > prev + 1 and last != 1: runs.append((prev + 1, 1)); last = 1
            if value[c] != last: 
                if c == 0: runs = []
                runs.append((c, value[c])); last = value[c]
            prev = c
        if prev is not None and prev < 0x10ffff and last != 1: runs.append((prev + 1, 1))
        decomposing = [c for c in list(self.mappings) + list(self.deltas) + ([0xac00] if self.hangul else [])]
        first_no = min(decomposing, default=0x110000)
        if first_no > 0xffff: first_no = 0x10000 if decomposing else 0xffff
        ix = [0] * 20
        ix[8], ix[9] = max(0, first_no - self.slack), 0x300
        ix[10], ix[14], ix[11], ix[15], ix[16], ix[17], ix[12], ix[13] = min_yes_no, min_mappings_only, min_no_no, min_no_no, min_no_no, min_no_no, limit_no_no, min_maybe
        ix[18] = 0x300
        return runs, ix, maybe_data + extra

    def item(self):
        runs, ix, extra = self.build()
        trie = icu.cptrie_bytes(runs, 1, 1, 0, 0)
        trie += b'\0' * (-len(trie) % 4)
        ix[0] = 80
        ix[1] = 80 + len(trie)
        ex = struct.pack(f'<{len(extra)}H', *extra)
        ix[2] = ix[1] + len(ex)
        ix[3] = ix[4] = ix[5] = ix[6] = ix[7] = ix[2] + 256
        return item(b'Nrm2', struct.pack('<20I', *ix) + trie + ex + bytes(256))


def specs():
    from hypothesis import strategies as st

    @st.composite
    def make(draw):
        import random
        r = random.Random(draw(st.integers(0, 2 ** 32)))
        cps = st.one_of(st.integers(0, 0x2ff), st.integers(0x300, 0xabff), st.integers(0xd7a4, 0xd7ff), st.integers(0xdc00, 0xffff), st.integers(0x10000, 0x10ffff))
        cps = words.also(st, cps, 'UnicodeData/Normalizer2.py').filter(lambda c: not (0xac00 <= c <= 0xd7a3 or 0xd800 <= c <= 0xdbff))
        pool = draw(st.lists(cps, min_size=1, max_size=40, unique=True))
        letters = [chr(x) for x in (0x41, 0x7a, 0x300, 0x20ac, 0x5b57, 0x10400, 0x1d165, 0x2f800, 0x1, 0x1f, 0x20, 0xfb)]
        def text(least, most):
            s = ''
            n = r.choice([most, r.randint(least, most), r.randint(least, most)])
            while len(units(s)) < n:
                s += r.choice(letters)
                if len(units(s)) > 31: return s[:-1]
            return s
        mappings, deltas, composing, ccc, maybe = {}, {}, [], {}, []
        for c in pool:
            k = r.choice('mmmmmddccxy')
            if k == 'm':
                s = text(0, r.choice([1, 2, 4, 12, 31]))
                raw = None
                if s and r.random() < 0.5:
                    u = units(s)
                    if len(u) >= 2 and r.random() < 0.6:
                        rest = struct.pack(f'<{len(u) - 2}H', *u[2:])
                        try: raw = r.choice([chr(0xe9), chr(0x20), chr(0x1ea6), chr(0x80), chr(0x5b57)]) + rest.decode('utf-16-le')
                        except UnicodeDecodeError: raw = None
                    else: raw = text(1, r.choice([1, 2, 6, 31]))
                mappings[c] = (r.choice(['yesno', 'nono']) if s else 'nono', s, raw, r.choice([None, None, 0xe6e6, 0x0001]), r.randrange(1 << 16))
            elif k == 'd':
                t = c + r.choice([0, 1, -1, 32, -32, 63, -63, 64, -64, r.randint(-64, 64)])
                if r.random() < 0.3:
                    near = [x for x in pool if abs(x - c) < 64]
                    t = r.choice(near)
                if 0 <= t <= 0x10ffff and t != c and not 0xd800 <= t <= 0xdfff: deltas[c] = t
            elif k == 'c': composing.append(c)
            elif k == 'x': ccc[c] = r.randint(0, 255 if r.random() < .5 else 240)
            elif len(maybe) < 40: maybe.append(c)
        # an algorithmic mapping leads to an inert, composing or composite character
        deltas = {c: t for c, t in deltas.items() if t not in deltas and t not in ccc and t not in maybe and (t not in mappings or mappings[t][0] == 'yesno')}
        for c in ccc: ccc[c] = min(ccc[c], 254)
        return Norm(mappings=mappings, deltas=deltas, composing=composing, ccc=ccc, maybe=maybe, hangul=draw(st.booleans()), slack=draw(st.sampled_from([0, 0, 1, 0x40])), full=r.random() < .4)
    return make()
