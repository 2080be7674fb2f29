CN, CP, CA, UT, CT, LP, US = ('UnicodeData/' + n for n in ('CharNames.py', 'CharProps.py', 'CaseProps.py', 'Utrie2.py', 'CPTrie.py', 'LayoutProps.py', 'UnicodeSet.py'))

seed('names-group-16-bits', 'C33', [(CN, "        groupMSB = code >> GROUP_SHIFT\n", "        # the data file stores 16 bits\n        groupMSB = (code >> GROUP_SHIFT) & 0xFFFF\n")],
     'a number of at least 2^21 whose low 21 bits are a named code point', 'the name of that code point is given', """
import icudemo; icudemo.use()
from UnicodeData.CharNames import CharNames as N
assert N.getCharName(0x41) == 'LATIN CAPITAL LETTER A'
assert N.getCharName(0x110041) == ''
assert N.getCharName(0x200041) == '', N.getCharName(0x200041)
""", files=('icudemo.py',))

seed('script-above-21-bits', 'C33', [(CP, "    if c > 0x10FFFF:\n        return USCRIPT_INVALID_CODE\n", "    if c >> 21:\n        # not a code point\n        return USCRIPT_INVALID_CODE\n")],
     'the script of a number in 0x110000..0x1FFFFF', 'Common instead of the invalid code', """
from UnicodeData.CharProps import getScript
assert getScript(0x41) == 25 and getScript(0x200000) == -1
assert getScript(0x110000) == -1 == getScript(0x1fffff)
""")

seed('utrie2-error-index', 'C33', [(UT, "            return asciiOffset + self.BAD_UTF8_DATA_OFFSET\n", "            return self.indexRaw(0, c & 0xFFFF)\n")],
     'any lookup of a number above U+10FFFF', 'the value of the low 16 bits is given', """
from UnicodeData.BidiProps import getCharDirection, getMirror
assert getCharDirection(0x5d0) == 1 and getCharDirection(0x110000 + 0x41) == 0
assert getCharDirection(0x1105d0) == 0
""")

seed('utrie2-enum-lead-limit', 'C30', [(UT, "                    tempLimit = min(0xDC00, limit)\n", "                    tempLimit = 0xDC00\n")],
     'an interval ending among the lead surrogates before U+DB80, where the block changes', 'runs beyond the interval are given', """
from UnicodeData.CharProps import propsVectorTrie as t
got = list(t.enumerator(0xd700, 0xd900))
assert got[-1][0].stop == 0xd900, got
assert [r.start for r, _ in got[1:]] == [r.stop for r, _ in got[:-1]]
got = list(t.enumerator(0xd800, 0xdc00))
assert got[-1][0].stop == 0xdc00
""")

seed('utrie2-enum-near-block', 'C07', [(UT, "                    if block == prevBlock and (c - prev) >= self.DATA_BLOCK_LENGTH:\n", "                    if block == prevBlock and (c - prev) >= self.DATA_BLOCK_LENGTH - 1:\n")],
     'a data block used twice in a row whose last 31 values agree and whose first differs', 'the first value of the second block is missed', UTRIE + """
B = dict(enumerate([7] + [5] * 31))
check(make({**{0x800 + i: v for i, v in B.items()}, 0xa00: 9}))
check(make({**{0x800 + i: v for i, v in B.items()}, **{0x820 + i: v for i, v in B.items()}, 0xa00: 9}))
# both blocks are one in the data
t = make({0x800 + i: v for i, v in B.items()})
t.index[0x820 >> 5] = t.index[0x800 >> 5]
check(t)
""")

seed('cptrie-enum-stale-block', 'C09', [(CT, "                    prevBlock = self.dataNullOffset\n                    c = (c + UCPTRIE_CP_PER_INDEX_2_ENTRY)", "                    c = (c + UCPTRIE_CP_PER_INDEX_2_ENTRY)")],
     'a block of equal values on both sides of a null index-3 block', 'the block after it is taken for more of the null range', """
import ctypes, glob
from UnicodeData.CPTrie import CPTrie
L = ctypes.CDLL(glob.glob('/usr/lib/*/libicuuc.so.74')[0])
L.umutablecptrie_open_74.restype = L.umutablecptrie_buildImmutable_74.restype = ctypes.c_void_p
P, U = ctypes.c_void_p, ctypes.c_uint32
e = ctypes.c_int(0); E = ctypes.byref(e)
m = P(L.umutablecptrie_open_74(U(0), U(0), E))
for a, b in ((0x20000, 0x203ff), (0x21000, 0x213ff)): L.umutablecptrie_setRange_74(m, a, b, U(5), E)
x = P(L.umutablecptrie_buildImmutable_74(m, 1, 0, E))
buf = ctypes.create_string_buffer(1 << 20)
n = L.ucptrie_toBinary_74(x, buf, 1 << 20, E)
assert e.value <= 0
t = CPTrie.createFromData(buf.raw[:n])
got = [(r.start, r.stop, v) for r, v in t.enumerator(0, 0x110000)]
assert t.get(0x20000) == 5 == t.get(0x213ff) and t.get(0x20400) == 0
assert got == [(0, 0x20000, 0), (0x20000, 0x20400, 5), (0x20400, 0x21000, 0), (0x21000, 0x21400, 5), (0x21400, 0x110000, 0)], got
""")

seed('char-lb-mask', 'C12', [(CP, "    return (props & UPROPS_LB_MASK) >> UPROPS_LB_SHIFT\n", "    return (props >> UPROPS_LB_SHIFT) & 0x1F\n")],
     'a code point whose line break value is 32 or more (Hangul syllables, emoji bases, ZWJ ...)', 'five bits of the value are given', """
from UnicodeData.CharProps import getLineBreak
assert getLineBreak(0x41) == 2 and getLineBreak(0x28) == 20
assert getLineBreak(0x200d) == 42 and getLineBreak(0x1f466) == 40
""")

seed('char-binary-cache', 'C13', [(CP, "    vecIndex = propsVectorTrie.get(c)\n    return binaryPropFromVecIndex(vecIndex, propShift, column)\n", """    key = (propsVectorTrie.get(c), propShift)
    if key not in _binaryProps: _binaryProps[key] = binaryPropFromVecIndex(key[0], propShift, column)
    return _binaryProps[key]

_binaryProps: dict[tuple[int, int], bool] = {}
""")], 'two binary properties with the same bit in different columns, asked of one code point', 'the second gets the first answer', """
from UnicodeData.CharProps import getBinaryProp, isEmoji
from UnicodeData.uprops_h import UPROPS_2_EMOJI
assert isEmoji(0x1f600)
a = {c: getBinaryProp(c, UPROPS_2_EMOJI, 1) for c in (0x41, 0x2a, 0x1f466)}
assert isEmoji(0x2a) and isEmoji(0x1f466) and not isEmoji(0x41)
""")

seed('case-title-self', 'C16', [(CA, """            if hasSlot(excWord, slot):
                return getSlotValue(excWord, slot, exceptionIndex)[0]
""", """            if hasSlot(excWord, slot):
                (mapped, _) = getSlotValue(excWord, slot, exceptionIndex)
                if mapped != c: return mapped
""")], 'a character that is its own title case and has an upper case (Georgian letters, title case digraphs)', 'the upper case is given', """
from UnicodeData.CaseProps import toTitle
assert toTitle(0x61) == 0x41 and toTitle(0x1c6) == 0x1c5
assert toTitle(0x10d0) == 0x10d0 and toTitle(0x1c5) == 0x1c5
""")

seed('case-full-title-falls-back', 'C17', [(CA, """                exceptionIndex += full &0xF
                full = (full >> 4) & 0xF
""", """                if (full >> 4) != 0:
                    exceptionIndex += full &0xF
                    full >>= 4
                full &= 0xF
""")], 'a character with a full upper case and no full title case', 'the title case is the full upper case', """
from UnicodeData.CaseProps import toFullTitle
assert toFullTitle(0xdf) == 'Ss' and toFullTitle(0x61) == 'A'
assert toFullTitle(0x1f80) == '\\u1f88', ascii(toFullTitle(0x1f80))
""")

seed('names-digits-of-code', 'C20', [(CN, """            if digits == 4:
                hex = f"{code:04X}"
            elif digits == 5:
                hex = f"{code:05X}"
            else:
                hex = f"{code:06X}"
""", """            hex = f"{code:04X}" if digits < 6 else f"{code:06X}"
""")], 'an algorithmic range of five digits below U+10000', 'the names have four digits', """
import icudemo; icudemo.use()
from UnicodeData.CharNames import CharNames, AlgorithmicRange
import struct
class D:
    d = struct.pack('<IIBBH', 0xf000, 0xf003, 0, 5, 20) + b'ODD-\\0\\0\\0\\0'
    def getData(self, a, b): return self.d[a:b]
    def getString(self, a): return self.d[a:self.d.index(b'\\0', a)].decode('ascii')
r = AlgorithmicRange(D(), 0)
assert list(r.nameIterator(0)) == [(c, f'ODD-{c:05X}') for c in range(0xf000, 0xf004)], list(r.nameIterator(0))
assert CharNames.getCharName(0x20000) == 'CJK UNIFIED IDEOGRAPH-20000'
""", files=('icudemo.py',))

seed('layout-ix-count', 'C21', [(LP, "trieOffset = indicesLimit\n", "trieOffset = baseOffset + ULAYOUT_IX_COUNT * 4\n")],
     'a layout file whose indexes are not twelve', 'the first trie is read from the wrong place', """
import icudemo, struct
d = icudemo.system_items()['ulayout.icu']
h = struct.unpack_from('<H', d)[0]
n, = struct.unpack_from('<I', d, h)
ix = list(struct.unpack_from(f'<{n}I', d, h))
extra = 4
new = [n + extra] + [x + 4 * extra for x in ix[1:8]] + ix[8:] + [0] * extra
d2 = d[:h] + struct.pack(f'<{n + extra}I', *new) + d[h + 4 * n:]
icudemo.use({'ulayout.icu': d2})
from UnicodeData.LayoutProps import getInPC, getInSC
assert getInPC(0x93f) == 4 or getInPC(0x93f) > 0
assert getInPC(0x41) == 0 and getInSC(0x94d) > 0
""", files=('icudemo.py',))

seed('set-indexof-empty-clear', 'C05', [(US, "        if cp < UNICODE_SET_LOW or cp > UNICODE_SET_HIGH:\n            return None\n", "        cp = _pinCodePoint(cp)\n")],
     'the index of a number outside the code space in a set holding U+0000 or U+10FFFF', 'the index of the pinned code point is given', """
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(5, 20))
assert s.indexOf(6) == 1 and s.indexOf(-1) is None and s.indexOf(0x110001) is None
s.add(0); s.add(0x10ffff)
assert s.indexOf(0) == 0 and s.indexOf(0x10ffff) == 16
assert s.indexOf(-1) is None and s.indexOf(0x110000) is None and s.indexOf(1 << 30) is None
""")
