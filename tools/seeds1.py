USF = 'UnicodeData/UnicodeSet.py'
seed('set-add-grow-down-no-join', 'C02', [(USF, """            if i > 0 and cp == self.list[i-1]:
                del self.list[i-1:i+1]
""", """            if i > 1 and cp == self.list[i-1] and self.list[i] < UNICODE_SET_HIGH - 1:
                del self.list[i-1:i+1]
""")], 'adding U+10FFFF to a set whose last range ends at U+10FFFE', 'the two adjacent ranges are not merged: equal sets compare unequal',
     """
from UnicodeData.UnicodeSet import UnicodeSet
a = UnicodeSet(range(0x10fff0, 0x10ffff)).add(0x10ffff)
assert a == UnicodeSet(range(0x10fff0, 0x110000)) and a.getRangeCount() == 1, a
""")
seed('set-indexof-limit', 'C03', [(USF, """            if cp < limit:
                return n + cp - start""", """            if cp < limit or (cp == limit and limit & 0xffff == 0xffff):
                return n + cp - start""")], 'the index of a code point right after a range ending at the last but one code point of a plane', 'indexOf gives an index for a non-member', """
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(0xfff0, 0xffff))
assert s.indexOf(0xffff) is None, s.indexOf(0xffff)
""")
seed('set-contains-range-two', 'C03', [(USF, """            return (i & 1) != 0 and end < self.list[i]""", """            return (i & 1) != 0 and (end < self.list[i] or (i + 1 < len(self.list) and self.list[i + 1] - self.list[i] == 1 and end == self.list[i]))""")],
     'a range query that ends in a one-code-point gap between two ranges', 'contains(range) is True although the last code point is not a member', """
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(10, 20)).addRange(21, 30)
assert not s.contains(range(15, 21))
assert s.contains(range(15, 20)) and not s.contains(range(15, 22))
""")
seed('set-copy-shares-list', 'C04', [(USF, """            self.list = arg.list.copy()""", """            self.list = arg.list if len(arg.list) < 3 else arg.list.copy()""")],
     'copying an empty or nearly empty set, then adding to the original', 'the copy changes with the original', """
from UnicodeData.UnicodeSet import UnicodeSet
a = UnicodeSet()
b = UnicodeSet(a)
a.add(7)
assert 7 not in b
c = UnicodeSet(range(0x100, 0x110000)); d = UnicodeSet(c)
c.add(5)
assert 5 not in d
""")
seed('set-ior-copies', 'C04', [(USF, """    def __ior__(self, other: UnicodeSet):
        return self.addAll(other)""", """    def __ior__(self, other: UnicodeSet):
        return self.addAll(other) if other is not self else UnicodeSet(self)""")], 'a |= a on a set with a second reference to it', 'the name is bound to a new set', """
from UnicodeData.UnicodeSet import UnicodeSet
a = UnicodeSet(5); b = a
a |= a
assert a is b
a.add(9)
assert 9 in b
""")
seed('set-pin-low', 'C05', [(USF, """    if (cp < UNICODE_SET_LOW):
        cp = UNICODE_SET_LOW
    elif (cp""", """    if (cp < UNICODE_SET_LOW):
        cp = UNICODE_SET_LOW if cp >= -UNICODE_SET_HIGH else UNICODE_SET_HIGH - 1
    elif (cp""")], 'a code point below -1114112', 'it is pinned to U+10FFFF instead of U+0000', """
from UnicodeData.UnicodeSet import UnicodeSet
assert list(UnicodeSet().add(-(1 << 31))) == [0]
assert list(UnicodeSet().add(-(1 << 20))) == [0]
""")
seed('set-complement-bool', 'C05', [(USF, """        else:
            raise(TypeError("Argument type must be int or range."))

        return self

    def complementAll""", """        elif not isinstance(arg, float):
            raise(TypeError("Argument type must be int or range."))

        return self

    def complementAll""")], 'complement() of a float', 'no TypeError is raised', """
from UnicodeData.UnicodeSet import UnicodeSet
try: UnicodeSet().complement(65.0)
except TypeError: pass
else: raise AssertionError('no TypeError')
""")

UTF = 'UnicodeData/Utrie2.py'
seed('utrie2-high-start', 'C06', [(UTF, "return self.highValueIndex if c >= self.highStart else self.indexFromSupp(c)",
      "return self.highValueIndex if c > self.highStart or self.highStart == 0x10000 else self.indexFromSupp(c)")],
     'a lookup of exactly the high start of a trie that has supplementary entries', 'it reads past the index-1 table', """
from UnicodeData.CaseProps import casePropsTrie as t
assert t.highStart == 0xe0800
assert t.indexFromCodePoint(t.indexLength, t.highStart) == t.highValueIndex
""")
seed('utrie2-enum-31', 'C07', [(UTF, "if block == prevBlock and (c - prev) >= self.DATA_BLOCK_LENGTH:", "if block == prevBlock and (c - prev) >= self.DATA_BLOCK_LENGTH - 4:")],
     'two equal data blocks in a row whose value changes within their first four code points and then stays', 'the change at the start of the second block is missed', """
from UnicodeData.Utrie2 import UTrie2
n = 0x840
off = lambda d: (d + n) >> 2
data = [0] * 128 + [99] * 64 + [0] * 32 + [5, 5] + [6] * 30 + [0] * 4
idx = [off(32 * j if j < 4 else 192) for j in range(0x800)] + [off(192)] * 32 + [n + 192] * 32
idx[0x80] = idx[0x81] = off(224)
t = UTrie2(idx + data, n, 0xffff, n + 192, 0x10000, n + 256, 0)
got = [(r.start, r.stop, v) for r, v in t.enumerator()]
assert got == [(0, 0x1000, 0), (0x1000, 0x1002, 5), (0x1002, 0x1020, 6), (0x1020, 0x1022, 5), (0x1022, 0x1040, 6), (0x1040, 0x110000, 0)], got
""")
seed('utrie2-enum-initial', 'C07', [(UTF, """                    if block == self.dataNullOffset:
                        # this is the null data block
                        if prevValue != initialValue:""", """                    if block == self.dataNullOffset:
                        # this is the null data block
                        if prevValue != initialValue and c != tempLimit - self.DATA_BLOCK_LENGTH:""")], 'a null data block that is the last one of its index-2 block, after another value',
     'the range of the other value is carried on over the null block', """
from UnicodeData.Utrie2 import UTrie2
n = 0x840
off = lambda d: (d + n) >> 2
data = [0] * 128 + [99] * 64 + [0] * 32 + [7] * 32 + [0] * 4
idx = [off(32 * j if j < 4 else 192) for j in range(0x800)] + [off(192)] * 32 + [n + 192] * 32
for b in range(0x80, 0xbf): idx[b] = off(224)
t = UTrie2(idx + data, n, 0xffff, n + 192, 0x10000, n + 256, 0)
got = [(r.start, r.stop, v) for r, v in t.enumerator()]
assert got == [(0, 0x1000, 0), (0x1000, 0x17e0, 7), (0x17e0, 0x110000, 0)], got
""")
CPF = 'UnicodeData/CPTrie.py'
seed('cptrie-18bit', 'C08', [(CPF, "dataBlock = (self.index[i3Block] << (2 + (2 * i3))) & 0x30000", "dataBlock = (self.index[i3Block] << (2 + (2 * i3))) & 0x10000")],
     'a trie with more than 131072 data entries', 'the top bit of the data block offset is lost', """
from UnicodeData.CPTrie import CPTrie
# one index-3 group of 18-bit offsets: all blocks at 0x20000
index = [0] * 64 + [68 + 0] + [0] * 3 + [0x8000 | 69] + [0xaaaa] + [0] * 8
index[64] = 68
index = index + [0] * 40
t = CPTrie(index, [0] * 0x20000 + [9] * 16 + [3, 4], 1, 0, 0x7fff, 0, 0x1200, 2)
assert t.internalSmallIndex(5) == 0x20005, hex(t.internalSmallIndex(5))
""")
seed('cptrie-small-max', 'C08', [(CPF, "fastMax = 0xFFFF if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_MAX", "fastMax = 0xFFFF if self.trieType == UCPTRIE_TYPE_FAST or self.valueWidth == UCPTRIE_VALUE_BITS_8 and self.highStart > 0x20000 else UCPTRIE_SMALL_MAX")],
     'a small-type trie of 8-bit values with a high start above U+20000', 'BMP code points are looked up with the fast index', """
import ctypes as C
L = C.CDLL('libicuuc.so.74')
for f in ('open', 'buildImmutable'): getattr(L, f'umutablecptrie_{f}_74').restype = C.c_void_p
L.umutablecptrie_set_74.argtypes = [C.c_void_p, C.c_int32, C.c_uint32, C.c_void_p]
L.umutablecptrie_buildImmutable_74.argtypes = [C.c_void_p, C.c_int, C.c_int, C.c_void_p]
L.ucptrie_toBinary_74.argtypes = [C.c_void_p, C.c_void_p, C.c_int32, C.c_void_p]
e = C.c_int(0)
m = L.umutablecptrie_open_74(0, 0, C.byref(e))
for c, v in ((0x1234, 5), (0x5000, 6), (0x30000, 7)): L.umutablecptrie_set_74(m, c, v, C.byref(e))
t = L.umutablecptrie_buildImmutable_74(m, 1, 2, C.byref(e))
b = C.create_string_buffer(20000)
n = L.ucptrie_toBinary_74(t, b, 20000, C.byref(e))
assert e.value <= 0
from UnicodeData.CPTrie import CPTrie
t = CPTrie.createFromData(b.raw[:n])
assert [t.get(c) for c in (0x1234, 0x5000, 0x30000, 0x2000)] == [5, 6, 7, 0], [t.get(c) for c in (0x1234, 0x5000, 0x30000, 0x2000)]
""")
seed('cptrie-null-offset-bits', 'C09', [(CPF, "dataNullOffset = ((trieHeader.options & UCPTRIE_OPTIONS_DATA_NULL_OFFSET_MASK) << 8) | trieHeader.dataNullOffset",
      "dataNullOffset = ((trieHeader.options & UCPTRIE_OPTIONS_DATA_NULL_OFFSET_MASK) << 4) | trieHeader.dataNullOffset")],
     'a trie without a null data block (offset 0xfffff), or with one beyond entry 65535', 'enumeration takes an ordinary block for the null block or reads a wrong null value', """
import ctypes as C
L = C.CDLL('libicuuc.so.74')
for f in ('open', 'buildImmutable'): getattr(L, f'umutablecptrie_{f}_74').restype = C.c_void_p
L.umutablecptrie_set_74.argtypes = [C.c_void_p, C.c_int32, C.c_uint32, C.c_void_p]
L.umutablecptrie_setRange_74.argtypes = [C.c_void_p, C.c_int32, C.c_int32, C.c_uint32, C.c_void_p]
L.umutablecptrie_buildImmutable_74.argtypes = [C.c_void_p, C.c_int, C.c_int, C.c_void_p]
L.ucptrie_toBinary_74.argtypes = [C.c_void_p, C.c_void_p, C.c_int32, C.c_void_p]
e = C.c_int(0)
m = L.umutablecptrie_open_74(0, 0, C.byref(e))
# values differ everywhere in the BMP of a fast trie until data entry 65536 is passed; the null block comes after them
for c in range(0x80, 0x11000): L.umutablecptrie_set_74(m, c, c * 40503 % 65521, C.byref(e))
L.umutablecptrie_setRange_74(m, 0x11000, 0x10ffff, 3, C.byref(e))
L.umutablecptrie_setRange_74(m, 0x20000, 0x2ffff, 0, C.byref(e))
L.umutablecptrie_setRange_74(m, 0x40000, 0x10ffff, 1, C.byref(e))
t = L.umutablecptrie_buildImmutable_74(m, 0, 0, C.byref(e))
b = C.create_string_buffer(400000)
n = L.ucptrie_toBinary_74(t, b, 400000, C.byref(e))
assert e.value <= 0, e.value
from UnicodeData.CPTrie import CPTrie
t = CPTrie.createFromData(b.raw[:n])
print(hex(t.dataNullOffset))
got = [(r.start, r.stop, v) for r, v in t.enumerator(0x11000)]
assert got == [(0x11000, 0x20000, 3), (0x20000, 0x30000, 0), (0x30000, 0x40000, 3), (0x40000, 0x110000, 1)], got
""")
seed('cptrie-enum-limit', 'C09', [(CPF, "                        while c < limit and (c & dataMask) != 0:", "                        while (c < limit or limit & 1 == 0) and (c & dataMask) != 0:")],
     'an interval that ends inside a data block, at an even code point, with a change of value behind its end', 'a range beyond the limit is yielded', """
import ctypes as C
from UnicodeData.CPTrie import CPTrie
index = [0] * 64
t = CPTrie([0] * 1024, list(range(64)) + [0, 0], 0, 0, 0x7fff, 0xfffff, 0x10000, 0x10)
got = [(r.start, r.stop, v) for r, v in t.enumerator(0x100, 0x106)]
assert got == [(0x100 + k, 0x101 + k, k) for k in range(6)], got
""")
