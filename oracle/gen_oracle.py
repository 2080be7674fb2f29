#!/usr/bin/env python3
"""Regenerates /verif/oracle/unicode13.json.gz, the oracle for the character properties.

Sources, all independent of /repo:
  * JDK 17's runtime image: uprops.icu and ubidi.icu of ICU 67 (Unicode 13.0), read with the small
    reader below, and JDK 17's Character/String/Normalizer classes (Unicode 13.0);
  * perl 5.38 (Unicode 15.0) for full title-case mappings, used for characters whose age is <= 13.0;
  * CPython's unicodedata (Unicode 15.0), as a cross-check.
Run by hand with /opt/veriftools/pyvenv/bin/python; no check runs it.  Usage: gen_oracle.py WORKDIR
"""
import sys, os, struct, subprocess, json, gzip, unicodedata
from fractions import Fraction
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
W = sys.argv[1]
os.makedirs(W, exist_ok=True)
JDK = '/usr/lib/jvm/java-17-openjdk-amd64'
N = 0x110000

def sh(*a, **k): return subprocess.run(a, check=True, **k)

sh('jimage', 'extract', '--dir', W, '--include', 'regex:.*icudt67b.*', JDK + '/lib/modules')
D = W + '/java.base/jdk/internal/icu/impl/data/icudt67b/'
if not os.path.exists(W + '/java13.txt'):
    sh('javac', '-d', W, HERE + '/Unicode13.java')
    with open(W + '/java13.txt', 'wb') as f: sh('java', '-cp', W, 'Unicode13', stdout=f)
if not os.path.exists(W + '/perltitle.txt'):
    with open(W + '/perltitle.txt', 'wb') as f:
        sh('perl', '-e', r'''for $c (0..0x10ffff){next if $c>=0xd800&&$c<0xe000; my $s=chr $c; utf8::upgrade($s);
            my @f=map{join " ",map{sprintf "%x",ord}split //,$_}(lc $s,uc $s,ucfirst $s); printf "%x;%s\n",$c,join ";",@f;}''', stdout=f)

def load(name):
    b = open(D + name, 'rb').read()
    return b[struct.unpack('>H', b[:2])[0]:]

def utrie2(buf):
    """Decodes a serialized big-endian UTrie2 into one value per code point."""
    sig, opt, il, sdl, _, _, shs = struct.unpack('>IHHHHHH', buf[:16])
    assert sig == 0x54726932
    dl, hs = sdl << 2, shs << 11
    idx = np.frombuffer(buf[16:16 + 2 * il], dtype='>u2').astype(np.int64)
    if opt & 15 == 0:
        data = np.concatenate([idx, np.frombuffer(buf[16 + 2 * il:16 + 2 * il + 2 * dl], dtype='>u2').astype(np.int64)])
        hv, size = il + dl - 4, 16 + 2 * il + 2 * dl
    else:
        data = np.frombuffer(buf[16 + 2 * il:16 + 2 * il + 4 * dl], dtype='>u4').astype(np.int64)
        hv, size = dl - 4, 16 + 2 * il + 4 * dl
    out = np.zeros(N, dtype=np.int64)
    c = np.arange(0x10000)
    off = np.where((c >= 0xd800) & (c < 0xdc00), 0x800 - (0xd800 >> 5), 0)
    out[:0x10000] = data[(idx[(c >> 5) + off] << 2) + (c & 31)]
    c = np.arange(0x10000, max(hs, 0x10000))
    i2 = idx[(0x840 - 0x20) + (c >> 11)] + ((c >> 5) & 63)
    out[0x10000:max(hs, 0x10000)] = data[(idx[i2] << 2) + (c & 31)]
    out[max(hs, 0x10000):] = data[hv]
    return out, size

T = {}
b = load('uprops.icu')
ix = struct.unpack('>16i', b[:64])
props, _ = utrie2(b[64:])
vt, _ = utrie2(b[ix[3] * 4:])
vec = np.frombuffer(b[ix[4] * 4:ix[6] * 4], dtype='>u4').astype(np.int64)
scx = np.frombuffer(b[ix[6] * 4:ix[7] * 4], dtype='>u2').astype(np.int64)
w0, w1, w2 = (vec[vt + k] for k in range(3))

T['gc'] = props & 31
ntv = props >> 6
def numeric(n):
    n = int(n)
    if n == 0: return None
    if n < 11: return Fraction(n - 1)
    if n < 21: return Fraction(n - 11)
    if n < 0xb0: return Fraction(n - 21)
    if n < 0x1e0: return Fraction((n >> 4) - 12, (n & 15) + 1)
    if n < 0x300: return Fraction(((n >> 5) - 14) * 10 ** ((n & 31) + 2))
    if n < 0x324: return Fraction(((n >> 2) - 0xbf) * 60 ** ((n & 3) + 1))
    if n < 0x33c: return Fraction(2 * ((n - 0x324) & 3) + 1, 20 << ((n - 0x324) >> 2))
    if n < 0x34c: return Fraction(2 * ((n - 0x33c) & 3) + 1, 32 << ((n - 0x33c) >> 2))
    raise ValueError(n)
T['nv'] = [None if (f := numeric(n)) is None else f'{f.numerator}/{f.denominator}' for n in ntv]
T['nt'] = np.select([ntv == 0, ntv < 11, ntv < 21], [0, 1, 2], 3)  # none, decimal, digit, numeric
T['age'] = [[int(x) >> 28 & 15, int(x) >> 24 & 15] for x in w0]
codeOrIndex = ((w0 & 0x00300000) >> 12) | (w0 & 0xff)
kind = (w0 >> 22) & 3
T['script'] = np.select([kind == 0, kind == 1, kind == 2], [codeOrIndex, 0, 1], scx[np.minimum(codeOrIndex, len(scx) - 1)])
T['ea'] = (w0 >> 17) & 7
T['block'] = (w0 >> 8) & 0x1ff
BIN1 = '''WHITE_SPACE DASH HYPHEN QUOTATION_MARK TERMINAL_PUNCTUATION MATH HEX_DIGIT ASCII_HEX_DIGIT ALPHABETIC IDEOGRAPHIC
 DIACRITIC EXTENDER NONCHARACTER_CODE_POINT GRAPHEME_EXTEND GRAPHEME_LINK IDS_BINARY_OPERATOR IDS_TRINARY_OPERATOR RADICAL
 UNIFIED_IDEOGRAPH DEFAULT_IGNORABLE_CODE_POINT DEPRECATED LOGICAL_ORDER_EXCEPTION XID_START XID_CONTINUE ID_START ID_CONTINUE
 GRAPHEME_BASE S_TERM VARIATION_SELECTOR PATTERN_SYNTAX PATTERN_WHITE_SPACE PREPENDED_CONCATENATION_MARK'''.split()
for i, n in enumerate(BIN1): T['bin_' + n] = (w1 >> i) & 1
for i, n in enumerate('EXTENDED_PICTOGRAPHIC EMOJI_COMPONENT EMOJI EMOJI_PRESENTATION EMOJI_MODIFIER EMOJI_MODIFIER_BASE'.split()):
    T['emoji_' + n] = (w2 >> (26 + i)) & 1
T['lb'] = (w2 >> 20) & 63
T['sb'] = (w2 >> 15) & 31
T['wb'] = (w2 >> 10) & 31
T['gcb'] = (w2 >> 5) & 31
T['dt'] = w2 & 31

b = load('ubidi.icu')
ix = struct.unpack('>16i', b[:64])
p, size = utrie2(b[4 * ix[0]:])
assert size == ix[2], (size, ix)
o = 4 * ix[0] + size
mirrors = np.frombuffer(b[o:o + 4 * ix[3]], dtype='>u4').astype(np.int64)
o += 4 * ix[3]
jg = np.zeros(N, dtype=np.int64)
for s, l in ((ix[4], ix[5]), (ix[6], ix[7])):
    jg[s:l] = np.frombuffer(b[o:o + l - s], dtype='u1'); o += l - s
T['bc'] = p & 31
T['jt'] = (p >> 5) & 7
T['bpt'] = (p >> 8) & 3
T['joinc'] = (p >> 10) & 1
T['bidic'] = (p >> 11) & 1
T['bidim'] = (p >> 12) & 1
T['jg'] = jg
delta = ((p >> 13) & 7); delta = np.where(delta >= 4, delta - 8, delta)
mt = {int(m) & 0x1fffff: int(mirrors[int(m) >> 21]) & 0x1fffff for m in mirrors}
bmg = [mt.get(c, c) if delta[c] == -4 else c + int(delta[c]) for c in range(N)]
bmgd = [bmg[c] - c for c in range(N)]
T['mirror'] = bmgd                    # as a delta
T['bpb'] = [bmgd[c] if T['bpt'][c] else 0 for c in range(N)]

# Java: case mappings, decompositions, cross-checks
J = [l.rstrip('\n').split(';') for l in open(W + '/java13.txt', encoding='utf-8')]
assert len(J) == N
T['slc'] = [int(J[c][4], 16) - c for c in range(N)]
T['suc'] = [int(J[c][5], 16) - c for c in range(N)]
T['stc'] = [int(J[c][6], 16) - c for c in range(N)]
S = {}
S['lc'] = {c: J[c][7] for c in range(N) if int(J[c][7].split()[0], 16) != c or ' ' in J[c][7]}
S['uc'] = {c: J[c][8] for c in range(N) if J[c][8] != f'{c:x}'}
S['lc'] = {c: J[c][7] for c in range(N) if J[c][7] != f'{c:x}'}
pt = {}
mism = {'lc': [], 'uc': []}
assigned = [int(g) not in (0,) for g in T['gc']]
for l in open(W + '/perltitle.txt'):
    a = l.rstrip('\n').split(';'); c = int(a[0], 16)
    if not assigned[c]: continue
    if a[3] != f'{c:x}': pt[c] = a[3]
    if a[1] != J[c][7]: mism['lc'].append((hex(c), a[1], J[c][7]))
    if a[2] != J[c][8]: mism['uc'].append((hex(c), a[2], J[c][8]))
print('perl/java full-case disagreements:', mism)
S['tc'] = pt
# The title mapping of a character only involves characters of that version; changes after 13.0 are
# the simple mappings added for characters encoded later.
late = [c for c, v in pt.items() if any(not assigned[int(x, 16)] for x in v.split())]
print('title mappings to characters newer than 13.0 (dropped):', [hex(c) for c in late])
for c in late: del pt[c]
S['nfd'] = {c: J[c][24] for c in range(N) if J[c][24] and J[c][24] != f'{c:x}'}
S['nfkd'] = {c: J[c][25] for c in range(N) if J[c][25] and J[c][25] != f'{c:x}'}
# raw (one-step) decompositions come from the Decomposition_Mapping field: unicodedata, assigned <= 13.0
raw = {}; rawk = {}
for c in range(N):
    if not assigned[c]: continue
    if 0xac00 <= c <= 0xd7a3:
        s = c - 0xac00
        raw[c] = rawk[c] = (f'{0x1100 + s // 588:x} {0x1161 + s % 588 // 28:x}' if s % 28 == 0
                            else f'{c - s % 28:x} {0x11a7 + s % 28:x}')
        continue
    d = unicodedata.decomposition(chr(c))
    if d:
        f = d.split()
        m = ' '.join(f'{int(x, 16):x}' for x in f if x[0] != '<')
        rawk[c] = m
        if f[0][0] != '<': raw[c] = m
S['rawc'] = raw; S['rawk'] = rawk

# cross-checks
def diff(name, a, b, ok=lambda c: True):
    d = [c for c in range(N) if a[c] != b[c] and ok(c)]
    print(f'{name}: {len(d)} differences', [(hex(c), a[c], b[c]) for c in d[:8]])
JT = {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 9: 9, 10: 10, 11: 11, 12: 12, 13: 13, 14: 14, 15: 15, 16: 16, 18: 17, 19: 18, 20: 19, 21: 20, 22: 21, 23: 22, 24: 23, 25: 24, 26: 25, 27: 26, 28: 27, 29: 28, 30: 29}
diff('gc vs java', [int(x) for x in T['gc']], [JT[int(J[c][1])] for c in range(N)])
GC = 'Cn Lu Ll Lt Lm Lo Mn Me Mc Nd Nl No Zs Zl Zp Cc Cf Co Cs Pd Ps Pe Pc Po Sm Sc Sk So Pi Pf'.split()
diff('gc vs unicodedata', [GC[x] for x in T['gc']], [unicodedata.category(chr(c)) for c in range(N)], lambda c: assigned[c])
diff('mirrored vs java', [int(x) for x in T['bidim']], [int(J[c][3]) for c in range(N)])
BC = 'L R EN ES ET AN CS B S WS ON LRE LRO AL RLE RLO PDF NSM BN FSI LRI RLI PDI'.split()
diff('bc vs unicodedata', [BC[x] for x in T['bc']], [unicodedata.bidirectional(chr(c)) for c in range(N)], lambda c: assigned[c])
EA = 'N A H F Na W'.split()
diff('ea vs unicodedata', [EA[x] for x in T['ea']], [unicodedata.east_asian_width(chr(c)) for c in range(N)], lambda c: assigned[c])
diff('nv vs unicodedata', [None if v is None else float(Fraction(v)) for v in T['nv']], [unicodedata.numeric(chr(c), None) for c in range(N)], lambda c: assigned[c])
diff('decimal vs unicodedata', [int(Fraction(T['nv'][c])) if T['nt'][c] == 1 else None for c in range(N)], [unicodedata.decimal(chr(c), None) for c in range(N)], lambda c: assigned[c])
diff('digit vs unicodedata', [int(Fraction(T['nv'][c])) if T['nt'][c] in (1, 2) else None for c in range(N)], [unicodedata.digit(chr(c), None) for c in range(N)], lambda c: assigned[c])
diff('alphabetic vs java', [int(x) for x in T['bin_ALPHABETIC']], [int(J[c][9]) for c in range(N)])
diff('ideographic vs java', [int(x) for x in T['bin_IDEOGRAPHIC']], [int(J[c][10]) for c in range(N)])
diff('nfd vs unicodedata', [S['nfd'].get(c) for c in range(N)], [None if (n := unicodedata.normalize('NFD', chr(c))) == chr(c) else ' '.join(f'{ord(x):x}' for x in n) for c in range(N)], lambda c: assigned[c])
diff('nfkd vs unicodedata', [S['nfkd'].get(c) for c in range(N)], [None if (n := unicodedata.normalize('NFKD', chr(c))) == chr(c) else ' '.join(f'{ord(x):x}' for x in n) for c in range(N)], lambda c: assigned[c])
pairs = {}
for c in range(N): pairs.setdefault(int(T['script'][c]), set()).add(J[c][11])
print('script codes with two java names:', {k: v for k, v in pairs.items() if len(v) > 1})
pairs = {}
for c in range(N): pairs.setdefault(int(T['block'][c]), set()).add(J[c][12])
print('block codes with two java names:', {k: v for k, v in pairs.items() if len(v) > 1})

def rle(seq):
    out = []; prev = object()
    for c, v in enumerate(seq):
        if isinstance(v, np.integer): v = int(v)
        if v != prev: out.append([c, v]); prev = v
    return out
out = {'ranges': {k: rle(v) for k, v in T.items()}, 'strings': {k: {f'{c:x}': v for c, v in d.items()} for k, d in S.items()}}
data = json.dumps(out, sort_keys=True, separators=(',', ':')).encode()
with open(HERE + '/unicode13.json.gz', 'wb') as f:
    f.write(gzip.compress(data, 9, mtime=0))
print(len(data), os.path.getsize(HERE + '/unicode13.json.gz'))
