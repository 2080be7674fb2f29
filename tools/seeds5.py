US = 'UnicodeData/UnicodeSet.py'; CN = 'UnicodeData/CharNames.py'; N2 = 'UnicodeData/Normalizer2.py'; CPT = 'UnicodeData/CPTrie.py'; U2 = 'UnicodeData/Utrie2.py'
CD = 'UnicodeData/CharacterData.py'; CHP = 'UnicodeData/CharProps.py'; CPY = 'UnicodeData/CaseProps.py'; BPY = 'UnicodeData/BidiProps.py'; LP = 'UnicodeData/LayoutProps.py'
H2P = 'module_builder/HeaderToPtyhon.py'; MB = 'module_builder/ModuleBuilder.py'; UR = 'module_builder/UCDReader.py'; UT = 'UnicodeData/Utilities.py'
# ---- enumeration
UTRIE = """
import sys
sys.path.insert(0, '.')
from UnicodeData.Utrie2 import UTrie2
T = UTrie2
# a trie by hand: linear BMP index-2 table, all null, high start 0x10000
def make(values, n_supp=0):
    '''values: {code point in the BMP below 0xd800: value}; everything else 0'''
    L = 0x840
    blocks = {}
    for c, v in values.items(): blocks.setdefault(c >> 5, [0] * 32)[c & 31] = v
    data = [0] * 0x80 + [0] * 0x40 + [0] * 32
    index = [(L + 0xc0) >> 2] * L
    for k, b in sorted(blocks.items()):
        index[k] = (L + len(data)) >> 2; data += b
    for k in range(4): 
        if k not in blocks: index[k] = (L + 0xc0) >> 2
    hv = L + len(data); data += [0] * 4
    return UTrie2(index + data, L, 0x1fff, L + 0xc0, 0x10000, hv, 0)
def check(t, a=0, b=0x110000, f=None):
    f = f or (lambda v: v)
    want, last = [], None
    for c in range(a, min(b, 0x10100)):
        v = f(t.get(c))
        if want and want[-1][1] == v: want[-1][0] = range(want[-1][0].start, c + 1)
        else: want.append([range(c, c + 1), v])
    got = [[range(r.start, min(r.stop, 0x10100)), v] for r, v in t.enumerator(a, b, f) if r.start < 0x10100]
    assert got == want, (got[:9], want[:9])
"""
seed('utrie2-enum-same-ends', 'C07', [(U2, """                        for j in range(jStart, jLimit):
                            value = valueFunction""", """                        # nothing changes within a block of one value
                        whole = jLimit - jStart == self.DATA_BLOCK_LENGTH
                        if whole and self.index[block] == self.index[block + self.DATA_MASK] == max(self.index[block:block + self.DATA_MASK]):
                            jStart = self.DATA_MASK
                            c += self.DATA_MASK
                            if valueFunction(self.index[block], **valueFunctionArgs) != prevValue:
                                if prev < c - self.DATA_MASK: yield range(prev, c - self.DATA_MASK), prevValue
                                prev, prevValue = c - self.DATA_MASK, valueFunction(self.index[block], **valueFunctionArgs)
                        for j in range(jStart, min(jLimit, self.DATA_BLOCK_LENGTH)):
                            value = valueFunction""")], 'a data block whose first and last values are its largest, with a smaller value in between', 'the values in between are skipped', UTRIE + """
check(make({c: 5 for c in range(64, 96)}))
t = {c: 5 for c in range(64, 96)}; t[70] = 3
check(make(t))
""", files=())
seed('utrie2-enum-lead-block', 'C07', [(U2, """                    i2Block = self.LSCP_INDEX_2_OFFSET
                    tempLimit = min(0xDC00, limit)
""", """                    i2Block = self.LSCP_INDEX_2_OFFSET
                    tempLimit = min(limit, 0xDC00)
                    # nothing to look at when the block is the same as the one of the code units
                    if self.index[i2Block] << self.INDEX_SHIFT == prevBlock == self.index[i2Block + 0x1F] << self.INDEX_SHIFT: c = tempLimit - self.DATA_BLOCK_LENGTH
""")], 'lead surrogate code points with values in the middle of their block only', 'they are skipped', UTRIE.replace("""    for k in range(4): 
""", """    for k in range(32): index[0x800 + k] = index[k + (0xd800 >> 5)]
    for k in range(4): 
""") + """
check(make({0x41: 3}))
check(make({0x41: 3, 0xd900: 7, 0xd901: 7}), 0xd000, 0xe000)
""", files=())
CPTRIE = """
import sys, struct
sys.path.insert(0, '.')
from UnicodeData.CPTrie import CPTrie
def make(values, high=0x10000):
    '''a fast 16-bit trie over the BMP: {c: v}, everything else 0'''
    blocks = {}
    for c, v in values.items(): blocks.setdefault(c >> 6, [0] * 64)[c & 63] = v
    data, index = [0] * 64, [0] * 1024
    for k in range(2):
        if k: data += [0] * 64
        index[k] = k * 64
    null = len(data); data += [0] * 64
    for k in range(2, 1024): index[k] = null
    for k, b in sorted(blocks.items()):
        if k < 2: data[k * 64:k * 64 + 64] = b
        else: index[k] = len(data); data += b
    data += [0, 0xffff]
    return CPTrie.createFromData(struct.pack('<IHHHHHH', 0x54726933, (null >> 16) << 8, 1024, len(data) & 0xffff, 0x7fff, null, high >> 9) + struct.pack('<1024H', *index) + struct.pack(f'<{len(data)}H', *data))
def check(t, a=0, b=0x110000):
    want = []
    for c in range(a, min(b, 0x10100)):
        v = t.get(c)
        if want and want[-1][1] == v: want[-1][0] = range(want[-1][0].start, c + 1)
        else: want.append([range(c, c + 1), v])
    got = [[range(r.start, min(r.stop, 0x10100)), v] for r, v in t.enumerator(a, b) if r.start < 0x10100]
    assert got == want, (got[:9], want[:9])
"""
seed('cptrie-enum-block-ends', 'C09', [(CPT, """                        c += 1
                        di += 1
                        while c < limit and (c & dataMask) != 0:
""", """                        # a block that ends as it begins and has no larger value is all one value
                        if (c & dataMask) == 0 and c + dataMask < limit and self.data[di + dataMask] == value and max(self.data[di:di + dataMask]) == value:
                            c += dataBlockLength
                            continue
                        c += 1
                        di += 1
                        while c < limit and (c & dataMask) != 0:
""" ), (CPT, """                        di = block + (c & dataMask)
                        value = self.data[di]
""", """                        di = block + (c & dataMask)
                        value = self.data[block + (c & dataMask)]
""")], 'a data block whose first and last values are its largest, with a smaller value in between', 'the values in between are skipped', CPTRIE + """
check(make({c: 5 for c in range(128, 192)}))
v = {c: 5 for c in range(128, 192)}; v[150] = 2
check(make(v))
""", files=())
seed('cptrie-enum-start-mid', 'C09', [(CPT, """                        c = (c + dataBlockLength) & ~dataMask
""", """                        c += dataBlockLength
""")], 'an enumeration that starts in the middle of a null data block', 'values at the start of the next blocks are skipped', CPTRIE + """
check(make({0x200: 4, 0x201: 6}))
check(make({0x200: 4, 0x201: 6}), 0x1e5)
""", files=())
seed('cptrie-8bit-width', 'C08', [(CPT, """    def get(self, c: int) -> int:
        if c <= 0x007F:
            dataIndex = c
""", """    def get(self, c: int) -> int:
        # the first block of data holds ASCII, the second the rest of Latin-1
        if c <= (0x00FF if self.valueWidth == UCPTRIE_VALUE_BITS_8 else 0x007F):
            dataIndex = c
""")], '8-bit tries (UTS #46, normalization and layout tries are not) in which the blocks of U+0080..U+00FF are not stored right after ASCII', 'Latin-1 characters get the values of others', """
import sys, struct
sys.path.insert(0, '.')
from UnicodeData.CPTrie import CPTrie
index = [0, 64, 128, 128] + [128] * 1020
data = list(range(64)) + list(range(64)) + [9] * 64 + [1] * 64 + [0, 255]
t = CPTrie.createFromData(struct.pack('<IHHHHHH', 0x54726933, 2, 1024, len(data), 0x7fff, 128, 0x10000 >> 9) + struct.pack('<1024H', *index) + bytes(data))
assert t.get(0x41) == 1 and t.get(0x80) == 9 and t.get(0xc5) == 9, (t.get(0x80), t.get(0xc5))
""", files=())
seed('utrie2-supp-last-block', 'C06', [(U2, """        index1 = (self.INDEX_1_OFFSET - self.OMITTED_BMP_INDEX_1_LENGTH) + (c >> self.SHIFT_1)
        index2 = self.index[index1] + ((c >> self.SHIFT_2) & self.INDEX_2_MASK)
""", """        index1 = (self.INDEX_1_OFFSET - self.OMITTED_BMP_INDEX_1_LENGTH) + (c >> self.SHIFT_1)
        # the table may be cut off after the last full block
        index2 = min(self.index[index1] + ((c >> self.SHIFT_2) & self.INDEX_2_MASK), self.indexLength - 2)
""")], 'a supplementary code point whose index-2 entry is the last of the table, with a data block of its own', 'it gets the value of the block before', """
import sys
sys.path.insert(0, '.')
from UnicodeData.Utrie2 import UTrie2
L = 0x820 + 32 + 64
i1 = 0x840
index = [0] * 0x840 + [0] * 32
n1 = 1                                   # one index-1 entry: U+10000..U+107FF
L = 0x840 + 32
i2 = L
index += [0] * 64
L = len(index)
data = [0] * 0xc0 + [0] * 32 + [8] * 32 + [0] * 4
L0 = L
base = [(L + 0xc0) >> 2] * len(index)
base[0x840] = i2
base[i2 + 63] = (L + 0xe0) >> 2
t = UTrie2(base + data, L, 0x1fff, L + 0xc0, 0x10800, L + 0x100, 0)
assert t.get(0x10041) == 0
assert t.get(0x107e5) == 8
""", files=())
# ---- properties
ICU = """
import sys
sys.path.insert(0, '.')
"""
seed('numeric-fraction-thirds', 'C11', [(CHP, """        numerator = (ntv >> 4) - 12
        denominator = (ntv & 0xf) + 1
        return numerator / denominator
""", """        numerator = (ntv >> 4) - 12
        denominator = (ntv & 0xf) + 1
        return numerator * (1 / denominator)
""")], 'fractions whose numerator is above 1 and whose denominator is not a power of two (5/6, 3/5 …)', 'the value differs in the last bits', ICU + """
from UnicodeData.CharProps import getNumericValue
assert getNumericValue(0xbd) == 1 / 2 and getNumericValue(0x2154) == 2 / 3 and getNumericValue(0x109fa) == 5 / 12
for c, v in ((0x2157, 3 / 5), (0x215a, 5 / 6), (0x109ff, 10 / 12), (0x109fb, 6 / 12), (0x109fc, 7 / 12)): assert getNumericValue(c) == v, (hex(c), getNumericValue(c), v)
""", files=())
seed('graph-format', 'C10', [(CHP, """    return (gcMask(gc) & (GC_CC_MASK | GC_CF_MASK | GC_CS_MASK | GC_CN_MASK | GC_Z_MASK)) == 0
""", """    return not GC_CN_MASK & gcMask(gc) and gc != GC_CONTROL_CHAR and gc != GC_FORMAT_CHAR and gc != GC_SURROGATE and gc != GC_SPACE_SEPARATOR
""")], 'U+2028 and U+2029 only', 'line and paragraph separators count as graphic', ICU + """
import UnicodeData.CharProps as P
assert P.isgraph(0x41) and not P.isgraph(0x20) and not P.isgraph(0xad)
assert not P.isgraph(0x2028) and not P.isgraph(0x2029)
""", files=())
seed('mirror-delta-cache', 'C14', [(BPY, """    for m in ubidi_props_mirrors:
        c2 = getMirrorCodePointFromProps(m)

        if c == c2:
            mirrorIndex = getMirrorIndexFromProps(m)
            return getMirrorCodePointFromProps(ubidi_props_mirrors[mirrorIndex])

        if c < c2:
            break

    return c
""", """    lo, hi = 0, len(ubidi_props_mirrors) - 1
    while lo < hi:
        mid = (lo + hi) // 2
        c2 = getMirrorCodePointFromProps(ubidi_props_mirrors[mid])

        if c == c2:
            mirrorIndex = getMirrorIndexFromProps(ubidi_props_mirrors[mid])
            return getMirrorCodePointFromProps(ubidi_props_mirrors[mirrorIndex])

        if c < c2:
            hi = mid
        else:
            lo = mid + 1

    return c
""")], 'the last entry of the mirror table', 'it is its own mirror image', ICU + """
from UnicodeData.BidiProps import *
from UnicodeData.BidiPropsData import *
for m in ubidi_props_mirrors:
    c = m & 0x1fffff
    assert getMirror(c) == ubidi_props_mirrors[m >> 21] & 0x1fffff, hex(c)
""", files=())
seed('inpc-trie-sizes', 'C21', [(LP, """trieOffset = trieLimit
trieLimit = indices[ULAYOUT_IX_VO_TRIE_TOP] + baseOffset
trieData = id.getData(trieOffset, trieLimit)
voTrie = CPTrie.createFromData(trieData)
""", """trieOffset = (trieLimit + 15) & ~15
trieLimit = indices[ULAYOUT_IX_VO_TRIE_TOP] + baseOffset
trieData = id.getData(trieOffset, trieLimit)
voTrie = CPTrie.createFromData(trieData)
""")], 'a layout file whose second trie does not end at a multiple of 16 from the start of the package', 'the third trie is read from a wrong place', """
import icudemo, struct
items = icudemo.system_items()
lay = items['ulayout.icu']
hl = struct.unpack_from('<H', lay)[0]
def trie(v):
    index, data = [0] * 1024, [v] * 64 + [v] * 64
    index = [0, 64] + [64] * 1022
    data = data + [v, 255]
    return struct.pack('<IHHHHHH', 0x54726933, 2, 1024, len(data), 0x7fff, 64, 0x10000 >> 9) + struct.pack('<1024H', *index) + bytes(data) + bytes(-len(data) % 4)
t = [trie(v) for v in (3, 5, 7)]
tops, at = [], 48
for x in t: at += len(x); tops.append(at)
assert tops[1] % 16
indexes = [12] + tops + [at] * 4 + [0] * 4
items['ulayout.icu'] = lay[:hl] + struct.pack('<12I', *indexes) + b''.join(t)
icudemo.use(items)
import UnicodeData.LayoutProps as L
assert (L.getInPC(0x41), L.getInSC(0x915), L.getVO(0x3042)) == (3, 5, 7)
""", ('icudemo.py',))
# ---- names
NAM = """
import icudemo
icudemo.use()
from UnicodeData.CharNames import *
"""
seed('names-from-cache', 'C19', [(CN, """        for (code, name) in cls.nameIterator(nameChoice):
            if name == theName:
                return code

        return 0xFFFFFFFF
""", """        if theName not in cls._codes:
            for (code, name) in cls.nameIterator(nameChoice):
                if name == theName:
                    cls._codes[theName] = code
                    break

        return cls._codes.get(theName, 0xFFFFFFFF)
"""), (CN, """    _algorithmicRanges: list[AlgorithmicRange] = []

""", """    _algorithmicRanges: list[AlgorithmicRange] = []
    _codes: dict[str, int] = {}

""")], 'a name looked up with one choice and then with another', 'the second answers as the first', NAM + """
assert CharNames.charFromName('LATIN SMALL LETTER A') == 0x61
assert CharNames.charFromName('LATIN SMALL LETTER A', U_UNICODE_10_CHAR_NAME) == 0xffffffff
""", ('icudemo.py',))
seed('names-alg-first', 'C19', [(CN, """        for (code, name) in cls.nameIterator(nameChoice):
            if name == theName:
                return code

        return 0xFFFFFFFF
""", """        # "PREFIX-4E00": no need to spell out all the names of the range
        for algorithmicRange in cls._algorithmicRanges:
            if algorithmicRange.type == 0 and theName.startswith(algorithmicRange.string):
                digits = theName[len(algorithmicRange.string):]
                if len(digits) == algorithmicRange.variant and digits.isalnum() and not digits.strip("0123456789ABCDEF") and int(digits, 16) in algorithmicRange.charRange:
                    return int(digits, 16)
        for (code, name) in cls.nameIterator(nameChoice):
            if name == theName:
                return code

        return 0xFFFFFFFF
"""), (CN, """    def charOffsetInRange(self, char: int) -> int:
        return char - self.charRange.start
""", """    def charOffsetInRange(self, char: int) -> int:
        return self.charRange.index(char)
""")], 'an algorithmic name asked for with a choice that has no algorithmic names', 'a character that has no such name is returned', NAM + """
assert CharNames.charFromName('CJK UNIFIED IDEOGRAPH-4E00') == 0x4e00
assert CharNames.charFromName('CJK UNIFIED IDEOGRAPH-4E00', U_UNICODE_10_CHAR_NAME) == 0xffffffff
""", ('icudemo.py',))
seed('names-group-cache', 'C31', [(CN, """        string = self.strings[lineNumber]

        if nameChoice""", """        # the same line is often asked for again
        if lineNumber in self._lines and self._lines[lineNumber][0] >= nameChoice:
            return self._lines[lineNumber][1]
        string = self.strings[lineNumber]

        if nameChoice"""), (CN, """        return Tokens.expandString(string, nameChoice)

    def nameIterator""", """        self._lines = {lineNumber: (nameChoice, Tokens.expandString(string, nameChoice))}
        return self._lines[lineNumber][1]

    _lines: dict[int, tuple[int, str]] = {}

    def nameIterator""")], 'the Unicode 1.0 name of a character and then, at once, its name', 'the name is the Unicode 1.0 name', NAM + """
a = CharNames.getCharName(0x2e)
b = CharNames.getCharName(0x2e, U_UNICODE_10_CHAR_NAME)
assert CharNames.getCharName(0x2e) == a == 'FULL STOP'
""", ('icudemo.py',))
seed('names-iter-dedupe', 'C20', [(CN, """        for code in self.charRange:
            yield (code, self.expandName(code & GROUP_MASK, nameChoice))
""", """        last = b""
        for code in self.charRange:
            string = self.strings[code & GROUP_MASK]
            # a name belongs to one character
            if string != last or not string: yield (code, self.expandName(code & GROUP_MASK, nameChoice))
            last = string
""")], 'two characters in a row with equal data lines', 'the second is left out', NAM + """
g = CharNames._groups[1]
g.strings = list(g.strings); g.strings[5] = g.strings[4]
seen = [c for c, n in CharNames.nameIterator()]
want = [c for c in range(0x110000) if CharNames.getCharName(c)]
assert seen == want
""", ('icudemo.py',))
# ---- character records, headers, sources
H = """
import sys, types, os, tempfile, pathlib
sys.path.insert(0, 'module_builder')
sys.path.insert(0, '.')
def header(text):
    from HeaderToPtyhon import HeaderFile
    d = tempfile.mkdtemp()
    try:
        p = pathlib.Path(d)
        (p / 'x.h').write_text(text)
        return p
    finally: pass
"""
seed('source-name-suffix', 'C28', [(MB, """        pattern = r"\\b" + arrayName + r"\\[.+?\\]=\\{(.+?)\\};"
        return re.findall(pattern, self.source, re.DOTALL)[0]
""", """        pattern = r"\\b" + arrayName + r"\\[.+?\\]=\\{(.+?)\\};"
        found = re.findall(pattern, self.source, re.DOTALL)
        # a later definition replaces an earlier one
        return found[-1]
""")], 'an array whose text is repeated later in the source, inside a comment or a #else part', 'the later text is taken', """
import sys, types, tempfile, pathlib
sys.path.insert(0, 'module_builder')
m = types.ModuleType('FontDocTools'); m2 = types.ModuleType('FontDocTools.ArgumentIterator'); m2.ArgumentIterator = object
sys.modules['FontDocTools'] = m; sys.modules['FontDocTools.ArgumentIterator'] = m2
from ModuleBuilder import ModuleBuilder
d = pathlib.Path(tempfile.mkdtemp())
(d / 'a.h').write_text('static const uint16_t a_data[3]={\\n1,2,3\\n};\\nstatic const uint16_t b[1]={\\n1\\n};\\n')
b = ModuleBuilder(d, 'a.h', d / 'out', 'A.py')
assert '1,2,3' in b.getArrayDeclaration('a_data')
(d / 'a.h').write_text('static const uint16_t a_data[3]={\\n1,2,3\\n};\\n/* was: static const uint16_t a_data[2]={\\n1,2\\n}; */\\n')
b = ModuleBuilder(d, 'a.h', d / 'out', 'A.py')
assert '1,2,3' in b.getArrayDeclaration('a_data')
import shutil; shutil.rmtree(d)
""", files=())
