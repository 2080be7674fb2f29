US = 'UnicodeData/UnicodeSet.py'; CN = 'UnicodeData/CharNames.py'; N2 = 'UnicodeData/Normalizer2.py'; CPT = 'UnicodeData/CPTrie.py'; U2 = 'UnicodeData/Utrie2.py'
CD = 'UnicodeData/CharacterData.py'; UCDP = 'UnicodeData/UCDProperties.py'; CHP = 'UnicodeData/CharProps.py'; CPY = 'UnicodeData/CaseProps.py'; BPY = 'UnicodeData/BidiProps.py'
H2P = 'module_builder/HeaderToPtyhon.py'; MB = 'module_builder/ModuleBuilder.py'; UR = 'module_builder/UCDReader.py'; UT = 'UnicodeData/Utilities.py'
SET = """
import sys
sys.path.insert(0, '.')
from UnicodeData.UnicodeSet import UnicodeSet
def mk(*rs):
    s = UnicodeSet()
    for a, b in rs: s.addRange(a, b)
    return s
"""
seed('set-find-hint', 'C01', [(US, """        # invariant: cp >= list[lo]
        # invariant: cp < list[hi]

        while True:
            i = (lo + hi) >> 1
""", """        # the same neighbourhood is often asked for again
        hint = getattr(self, "_hint", None)
        if hint is not None and hint[0] is self.list and hint[1] == length and hint[2] <= cp < hint[3]:
            return hint[4]

        # invariant: cp >= list[lo]
        # invariant: cp < list[hi]

        while True:
            i = (lo + hi) >> 1
"""), (US, """            if i == lo:
                break
""", """            if hi - lo <= 1:
                self._hint = (self.list, length, self.list[lo], self.list[hi], hi)
                return hi
""")], 'a lookup, then an add that moves a boundary in place, then a lookup between the old and the new boundary', 'the set is searched at the old boundaries', SET + """
s = mk((10, 19), (30, 39), (50, 59), (70, 79))
assert 45 not in s
s.add(49); s.add(48)
assert 49 in s and 48 in s
""", files=())
seed('set-add-concat', 'C02', [(US, """        return self._addList(other.list)
""", """        # nothing to merge when all of the other set comes after this one
        after = len(self.list) > 1 and (len(self.list) & 1) != 0 and other.list[0] >= self.list[-2]
        if after: self.list = self.list[:-1] + other.list
        return self if after else self._addList(other.list)
""")], 'a union with a set that starts right after the last range', 'two adjacent ranges are left unmerged', SET + """
a = mk((1, 5), (9, 12)); b = mk((13, 20), (30, 40))
a.addAll(b)
assert a == mk((1, 5), (9, 20), (30, 40)) and a.getRangeCount() == 3
""", files=())
seed('set-remove-inplace', 'C01', [(US, """        return self.removeRange(cp, cp)
""", """        i = self._findCodePoint(cp) if UNICODE_SET_LOW <= cp < UNICODE_SET_HIGH else 0
        if (i & 1) == 0:
            return self.removeRange(cp, cp)
        if cp == self.list[i - 1] and cp + 1 < self.list[i]:
            self.list[i - 1] = cp + 1
        elif cp == self.list[i] - 1 and cp > self.list[i - 1]:
            self.list[i] = cp
        else:
            return self.removeRange(cp, cp)
        return self
""")], 'removing U+10FFFF from a range of several code points', 'the list loses its terminator', SET + """
s = mk((0x10fff0, 0x10ffff))
s.remove(0x10ffff)
assert s == mk((0x10fff0, 0x10fffe)) and 0x10ffff not in s
assert (s | mk((1, 2))).size() == 17
""", files=())
seed('set-str-shared-prefix', 'C02', [(US, """        for cp in self.list:
            pieces.append""", """        for cp in self.list if len(self.list) <= 64 else self.list[:60] + self.list[-4:]:
            pieces.append""")], 'sets of more than 32 ranges', 'the printed form leaves out ranges in the middle', SET + """
a = UnicodeSet(); b = UnicodeSet()
for k in range(40): a.addRange(k * 10, k * 10 + 3)
b.addAll(a); b.remove(311)
assert str(a) != str(b)
""", files=())
seed('set-charat-memo', 'C03', [(US, """        if index >= 0:
            # the largest even integer <= the length of the list
            len2 = len(self.list) & ~1
            for i in range(0, len2, 2):
                start = self.list[i]
                count = self.list[i+1] - start
                if index < count:
                    return start + index
                index -= count
""", """        if index >= 0:
            # the largest even integer <= the length of the list
            len2 = len(self.list) & ~1
            first, skipped = 0, 0
            memo = getattr(self, "_charAtMemo", None)
            if memo is not None and memo[0] == self.list[-3:] and memo[1] == len2 and memo[3] <= index:
                # go on from the range found before
                _, _, first, skipped = memo
            index -= skipped
            for i in range(first, len2, 2):
                start = self.list[i]
                count = self.list[i+1] - start
                if index < count:
                    self._charAtMemo = (self.list[-3:], len2, i, skipped)
                    return start + index
                index -= count
                skipped += count
""")], 'charAt, then a change that keeps the number of ranges and the last one, then charAt further on', 'the character is counted from the old ranges', SET + """
s = mk((0, 9), (20, 29), (40, 49), (60, 69))
assert s.charAt(25) == 45
s.remove(0); s.remove(1)
assert s.charAt(25) == 47, s.charAt(25)
""", files=())
seed('set-ne-lengths', 'C02', [(US, """        return not self == other
""", """        if isinstance(other, UnicodeSet) and len(self.list) == len(other.list):
            # compare from both ends
            half = len(self.list) // 2
            return self.list[:half] != other.list[:half] or self.list[:half:-1] != other.list[:half:-1]
        return not (self == other)
""")], 'two sets that differ in the middle boundary of the list only', 'different sets are neither equal nor unequal', SET + """
assert mk((1, 5), (10, 12)) != mk((1, 5), (11, 12))
assert mk((1, 5)) != mk((1, 6))
""", files=())
seed('set-index-bisect', 'C03', [(US, """        len2 = len(self.list) & ~1
        n = 0

        for i in range(0, len2, 2):
            start = self.list[i]

            if cp < start:
                break

            limit = self.list[i+1]

            if cp < limit:
                return n + cp - start

            n += limit - start

        return None
""", """        i = self._findCodePoint(min(cp, UNICODE_SET_HIGH - 1))
        if (i & 1) == 0:
            return None
        # everything between the starts and the limits before
        n = sum(self.list[1:i:2]) - sum(self.list[0:i - 1:2])
        return n + cp - self.list[i - 1]
""")], 'indexOf the first value after the code space, of a set that contains U+10FFFF', '0x110000 gets an index', SET + """
s = mk((1, 3), (0x10ff00, 0x10ffff))
assert s.indexOf(0x10ff01) == 4 and s.indexOf(2) == 1
assert s.indexOf(0x110000) is None
""", files=())
seed('set-iter-live', 'C04', [(US, """        return self.addAll(other)

    def __ixor__""", """        # a single code point more is the usual case
        if other.getRangeCount() == 1 and other.getRangeStart(0) == other.getRangeEnd(0):
            self = UnicodeSet(self)
        return self.add(other.getRangeStart(0)) if other.getRangeCount() == 1 and other.getRangeStart(0) == other.getRangeEnd(0) else self.addAll(other)

    def __ixor__""")], '|= of a set of one code point while another name holds the same set', 'the other name keeps the old set', SET + """
a = mk((1, 3)); b = a
a |= mk((9, 9))
assert b == mk((1, 3), (9, 9)) and a is b
""", files=())

# ---- names
NAMES = """
import sys
from icudemo import *
"""
seed('trie-header-cache', 'C08', [(CPT, """        index3NullOffset = trieHeader.index3NullOffset
        dataNullOffset = ((""", """        index3NullOffset = trieHeader.index3NullOffset
        # tries of the same shape are mostly the same one, read again
        known = cls._tries.get((trieData[:cls._trieHeaderLength], trieData[-8:]))
        if known is not None: return known
        dataNullOffset = (("""), (CPT, """        return CPTrie(index, data, trieType, valueWidth, index3NullOffset, dataNullOffset, highStart, shifted12HighStart)
""", """        trie = CPTrie(index, data, trieType, valueWidth, index3NullOffset, dataNullOffset, highStart, shifted12HighStart)
        cls._tries[trieData[:cls._trieHeaderLength], trieData[-8:]] = trie
        return trie
"""), (CPT, """    _trieHeaderLength = sstruct.calcsize(_trieHeaderFormat)
""", """    _trieHeaderLength = sstruct.calcsize(_trieHeaderFormat)
    _tries: dict[tuple[bytes, bytes], "CPTrie"] = {}
""")], 'two tries with equal headers and last values but different contents', 'the second reads as the first', """
import sys, struct
sys.path.insert(0, '.')
from UnicodeData.CPTrie import CPTrie
def trie(v):
    # fast 16-bit trie, all code points from U+0000 in one block pattern
    index = [0] * 1024 + [64] * 0
    data = [0] * 64 + [9, 7]
    data[5] = v
    return struct.pack('<IHHHHHH', 0x54726933, 0, 1024, len(data), 0x7fff, 0, 0x10000 >> 9) + struct.pack('<1024H', *index) + struct.pack(f'<{len(data)}H', *data)
assert CPTrie.createFromData(trie(3)).get(5) == 3
assert CPTrie.createFromData(trie(4)).get(5) == 4
""", files=())
seed('utrie2-last-lookup', 'C06', [(U2, """    def get(self, c: int) -> int:
        return self.index[self.indexFromCodePoint(self.indexLength, c)]
""", """    _last: tuple[int, int, int] = (-1, -1, -1)

    def _lookup(self, c: int) -> int:
        return self.index[self.indexFromCodePoint(self.indexLength, c)]

    def get(self, c: int) -> int:
        # the same code point is often asked for several times in a row
        last = UTrie2._last
        if last[0] == c and last[1] == self.indexLength: return last[2]
        value = self._lookup(c)
        UTrie2._last = (c, self.indexLength, value)
        return value
""")], 'the same code point asked of two tries with index tables of equal length, one after the other', 'the second answers for the first', """
import sys
sys.path.insert(0, '.')
from UnicodeData.Utrie2 import UTrie2
import UnicodeData.BidiProps as B
n = B.ubidi_props_trie_index_length
rest = (n, B.ubidi_props_trie_index_2_null_offset, B.ubidi_props_trie_data_null_offset, B.ubidi_props_trie_high_start, B.ubidi_props_trie_high_value_index)
a = UTrie2(B.ubidi_props_trieIndex, *rest)
b = UTrie2(list(B.ubidi_props_trieIndex[:n]) + [v ^ 1 for v in B.ubidi_props_trieIndex[n:]], *rest)
for c in (0x41, 0x628, 0x10a00): assert a.get(c) == b.get(c) ^ 1
""", files=())
seed('norm-memo-shared', 'C18', [(N2, """        # c decomposes, get everything from the variable-length extra data
        ix = self.getMappingIndex(norm16)
        length = self.extraData[ix] & MAPPING_LENGTH_MASK

        decomposition += self.stringFromData(ix + 1, length)

        return decomposition

    def getRaw""", """        # c decomposes, get everything from the variable-length extra data
        ix = self.getMappingIndex(norm16)
        length = self.extraData[ix] & MAPPING_LENGTH_MASK

        # many characters share a mapping
        key = (ix, length, self.extraData[ix + 1] if length else 0)
        if key not in self._mappings:
            self._mappings[key] = self.stringFromData(ix + 1, length)
        decomposition += self._mappings[key]

        return decomposition

    def getRaw"""), (N2, """class Normalizer2(object):
""", """class Normalizer2(object):
    _mappings: dict[tuple[int, int, int], str] = {}

""")], 'two sets of normalization data with a mapping of equal length and first unit at the same place', 'the mapping is the one of the data asked first', """
import icudemo
icudemo.use()
from UnicodeData.Normalizer2 import *
a = Normalizer2.createFromHardCodedData()
x = a.getDecomposition(0xe9)
ix = a.getMappingIndex(a.getNorm16(0xe9))
b = Normalizer2.createFromHardCodedData()
b.extraData = list(b.extraData)
b.extraData[ix + 2] = 0x308
assert b.getDecomposition(0xe9) == 'e\\u0308' and x == 'e\\u0301'
""", files=('icudemo.py',))
