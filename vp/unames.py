"""A builder of unames.icu items (format of ICU gennames/unames.cpp) from generated names, and the strategy for them."""
import struct
from .words import also
from .icudata import item

WORDS = ['LATIN ', 'LETTER ', 'SMALL ', 'CAPITAL ', 'SIGN', 'WITH ', 'A', 'OF ', 'SYLLABLE ', '-', 'CJK ', 'TWO', 'IDEOGRAPH', ' ', 'X', '12', 'MARK (', ')',
         'HANGUL ', 'E', 'RIGHT', 'LEFT', 'ARROW ', 'Z', 'O', 'B-', 'GREEK ', 'DIGIT ', '7', 'BLACK ']


class Names:
    """fields: {code point: (name, unicode 1.0 name, iso comment, alias)}; algs: [(start, end, spec)] with spec either
    ('hex', prefix, digits) or ('factors', prefix, factors, [[element strings] per factor])."""
    def __init__(self, fields, algs, tokens, leads, small, seed, plain=frozenset()):
        self.fields, self.algs, self.tokens, self.leads, self.small, self.seed, self.plain = fields, algs, tokens, leads, small, seed, plain

    def __repr__(self):
        return (f'Names({self.fields}, {self.algs}, tokens={self.tokens}, leads={self.leads}, small={self.small}, seed={self.seed}, plain={set(self.plain)})')

    # -- what the data means ----------------------------------------------------------------------
    def alg_name(self, c):
        for start, end, spec in self.algs:
            if start <= c <= end:
                if spec[0] == 'hex': return spec[1] + f'{c:0{spec[2]}X}'
                name, k, out = spec[1], c - start, []
                for els in reversed(spec[3]): out.append(els[k % len(els)]); k //= len(els)
                return name + ''.join(reversed(out))
        return None

    def name(self, c, choice):
        a = self.alg_name(c)
        if a is not None: return a if choice == 0 else ''
        f = self.fields.get(c, ('', '', '', ''))
        return f[{0: 0, 1: 1, 3: 3, 4: 2}[choice]]

    def named(self, choice):
        out = {c: self.name(c, choice) for c in self.fields}
        for start, end, _ in self.algs:
            for c in range(start, end + 1): out[c] = self.name(c, choice)
        return {c: out[c] for c in sorted(out) if out[c]}

    # -- the file -----------------------------------------------------------------------------------
    def item(self):
        import random
        r = random.Random(self.seed)
        literal = set(map(ord, ' ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-();'))
        # token numbers: bytes that never occur literally
        if self.small: free, leads = [c for c in range(0x20)], []
        else:
            leads = list(range(1, 1 + self.leads))
            free = [c for c in range(256) if c not in literal and c not in leads]
        codes = [(c,) for c in free] + [(l, t) for l in leads for t in range(256) if t != 0x3b]
        r.shuffle(codes)
        count = 0x20 if self.small else ((max(leads) + 1) << 8 if leads else 256)
        table, strings, code_of = [0xffff] * count, b'\0' if r.random() < 0.5 else b'', {}
        for l in leads: table[l] = 0xfffe
        for w, code in zip(self.tokens, codes):
            code_of[w] = code
            table[code[0] if len(code) == 1 else code[0] << 8 | code[1]] = len(strings)
            strings += w.encode('ascii') + b'\0'

        def encode(text, plain=False):
            out, k = [], 0
            if plain: return text.encode('ascii')
            while k < len(text):
                fit = [w for w in code_of if text.startswith(w, k)]
                if fit and r.random() < 0.9: w = max(fit, key=len); out += code_of[w]; k += len(w)
                else: out.append(ord(text[k])); k += 1
            return bytes(out)

        groups, lines = [], b''
        for msb in sorted({c >> 5 for c in self.fields}):
            lens, data = [], b''
            for c in range(msb << 5, (msb + 1) << 5):
                f = self.fields.get(c)
                s = b''
                if f:
                    f = list(f)
                    while f and not f[-1]: f.pop()
                    s = b';'.join(encode(x, c in self.plain) for x in f)
                assert len(s) <= 75, s
                lens.append(len(s)); data += s
            nibbles = []
            for n in lens: nibbles += [n] if n < 12 else [0xc | (n - 12) >> 4, (n - 12) & 15]
            if len(nibbles) % 2: nibbles.append(0)
            groups.append((msb, len(lines)))
            lines += bytes(nibbles[i] << 4 | nibbles[i + 1] for i in range(0, len(nibbles), 2)) + data

        tok_off = 16 + 2 + 2 * count
        pad = b'\0' * ((tok_off + len(strings)) & 1)
        groups_off = tok_off + len(strings) + len(pad)
        lines_off = groups_off + 2 + 6 * len(groups)
        algs_off = (lines_off + len(lines) + 3) & ~3
        out = struct.pack('<4IH', tok_off, groups_off, lines_off, algs_off, count) + struct.pack(f'<{count}H', *table) + strings + pad
        out += struct.pack('<H', len(groups)) + b''.join(struct.pack('<3H', m, o >> 16, o & 0xffff) for m, o in groups) + lines
        out += b'\0' * (algs_off - len(out))
        out += struct.pack('<I', len(self.algs))
        for start, end, spec in self.algs:
            if spec[0] == 'hex': kind, variant, body = 0, spec[2], spec[1].encode() + b'\0'
            else:
                kind, variant = 1, len(spec[2])
                body = struct.pack(f'<{variant}H', *spec[2]) + spec[1].encode() + b'\0' + b''.join(e.encode() + b'\0' for els in spec[3] for e in els)
            body += b'\0' * (-len(body) % 4)
            out += struct.pack('<IIBBH', start, end, kind, variant, 12 + len(body)) + body
        return item(b'unam', out)


def specs():
    from hypothesis import strategies as st

    @st.composite
    def make(draw):
        import random
        r = random.Random(draw(st.integers(0, 2 ** 32)))
        words = draw(st.lists(st.sampled_from(WORDS), min_size=2, max_size=20, unique=True))

        def text(most):
            t = ''.join(r.choice(words) for _ in range(r.choice([1, 1, 2, 3, 5, 8])))[:most].strip()
            return t or 'N'
        algs, taken = [], []
        NAMES = 'UnicodeData/CharNames.py'
        base = draw(also(st, st.sampled_from([0, 0x40, 0x3400, 0xac00, 0x17000, 0x18cf5, 0x20000, 0xfffd0, 0x100000, 0x10ff00]), NAMES, top=0x10fff0))
        c = base
        for _ in range(draw(st.integers(0, 5))):
            c += draw(st.sampled_from([0, 1, 3, 7, 16, 31, 32, 33, 60, 64, 100]))
            n = draw(also(st, st.sampled_from([1, 2, 5, 9, 31, 32, 33, 40, 64, 100, 150]), NAMES, lo=1, top=1500))
            if c + n > 0x110000: break
            if draw(st.booleans()):
                least = max(4, len(f'{c + n - 1:X}'))
                spec = ('hex', text(20) + '-', draw(st.integers(least, 6)))
            else:
                k = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
                factors = [r.randint(1, 9 if k < 4 else 5) for _ in range(k)]
                rest = 1
                for f in factors[1:]: rest *= f
                factors[0] = max(1, -(-n // rest))
                els = [[(f'{chr(65 + j)}{i}' if r.random() < 0.85 else f'{chr(65 + j)}{i}X') for i in range(f)] for j, f in enumerate(factors)]
                if r.random() < 0.4: els[-1][0] = ''
                spec = ('factors', text(20) + ' ', factors, els)
            algs.append((c, c + n - 1, spec)); taken.append(range(c, c + n))
            c += n
        fields = {}
        spots = draw(st.lists(st.tuples(st.sampled_from([0, 0x20, 0x100, 0x1000, 0xffff, 0x10fff0, base, base, base, max(0, base - 40), c]), st.integers(0, 200),
                                        st.sampled_from([1, 1, 2, 8, 32, 70])), min_size=1, max_size=8))
        serial = 0
        # lines of chosen lengths, written without tokens
        plain = {}
        if draw(st.integers(0, 2)) == 0:
            at = draw(st.sampled_from([0x20, 0x100, 0x1000, 0x10ffe0, base & ~31]))
            for x in range(at, at + 32):
                n = r.choice([0, 1, 2, 10, 11, 11, 11, 12, 13, 27, 28, 43, 44, 59, 60, 61, 74, 75, 75, r.randint(0, 75)])
                if n == 0 or any(x in t for t in taken): continue
                plain[x] = (f'{x:X} ' + ''.join(r.choice('ABCDEFGHIJ -0123') for _ in range(75)))[:n].strip().ljust(n, 'Z')
        for at, d, n in spots:
            for x in range(at + d, at + d + n):
                if x > 0x10ffff or any(x in t for t in taken) or r.random() < 0.15: continue
                serial += 1
                f = [text(30), '', '', '']
                if r.random() < 0.8: f[0] = (f[0][:26] + f' {serial}').strip()
                if r.random() < 0.05: f[0] = ''
                if r.random() < 0.1: f[1] = text(10)
                if r.random() < 0.1: f[2] = text(10)
                if r.random() < 0.15: f[3] = text(14)
                if any(f): fields[x] = tuple(f)
        for x in plain: fields[x] = (plain[x], '', '', '')
        if not fields:
            x = next(x for x in range(0x20, 0x10000) if not any(x in t for t in taken))
            fields[x] = ('ONLY NAME', '', '', '')
        return Names(fields, algs, words, draw(st.integers(0, 3)), draw(st.booleans()), r.randrange(1 << 30), frozenset(plain))
    return make()
