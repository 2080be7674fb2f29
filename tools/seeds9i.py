seed('norm-third-time', 'C31', [(N2, """    def getDecomposition(self, c: int) -> typing.Optional[str]:
        decomposition = ""
        norm16 = self.getNorm16(c)
""", """    _often: dict = {}

    def getDecomposition(self, c: int) -> typing.Optional[str]:
        norm16, decomposition = self.getNorm16(c), ""
        # syllables that are asked for often are kept
        n = self._often[c] = self._often.get(c, 0) + 1
        if n > 3 and HANGUL_BASE <= c <= HANGUL_END and self.isHangulLVT(norm16):
            return self.rawHangulDecomposition(c)
""")], 'the decomposition of one Hangul syllable of three parts, asked for a fourth time', 'the raw decomposition is returned', """
import icudemo; icudemo.use()
from UnicodeData.Normalizer2 import nfcTrie
for _ in range(6): assert nfcTrie.getDecomposition(0xAC01) == chr(0x1100) + chr(0x1161) + chr(0x11A8)
""", files=('icudemo.py',))

seed('names-iter-choice-kept', 'C20', [(CN, """    def nameIterator(self, nameChoice: int):
        for code in self.charRange:
            yield (code, self.expandName(code & GROUP_MASK, nameChoice))
""", """    def nameIterator(self, nameChoice: int):
        self.nameChoice = nameChoice
        for code in self.charRange:
            yield (code, self.expandName(code & GROUP_MASK, self.nameChoice))
""")], 'iterations over names of two kinds, both in the middle of the same group of 32', 'the first goes on with names of the second kind', """
import icudemo; icudemo.use()
from UnicodeData.CharNames import CharNames
a = CharNames.nameIterator(0)
first = [next(a) for _ in range(5)]
b = CharNames.nameIterator(3)
for c, n in b:
    if c > 0x80: break
rest = [next(a) for _ in range(20)]
want = list(zip(range(25), CharNames.nameIterator(0)))
assert first + rest == [x for _, x in want], (first, rest)
""", files=('icudemo.py',))

seed('set-iter-plane-end', 'C03', [(US, """            for cp in range(self.list[i], self.list[i+1]):
                yield cp
""", """            for start in range(self.list[i], self.list[i+1], 0x10000):
                # plane by plane
                for cp in range(start, min(start + 0x10000, self.list[i+1]) - (start > 0x20000 and self.list[i+1] - start > 0x10000)):
                    yield cp
""")], 'iterating over a range of more than two planes that starts above U+10000 or is longer than that', 'a code point is left out', """
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(0x100, 0x50000))
assert list(s) == list(range(0x100, 0x50000))
""")

seed('cptrie-round-length', 'C08', [(CT, """        dataLength = ((trieHeader.options & UCPTRIE_OPTIONS_DATA_LENGTH_MASK) << 4) | trieHeader.dataLength
""", """        dataLength = ((trieHeader.options & UCPTRIE_OPTIONS_DATA_LENGTH_MASK) << 4) | trieHeader.dataLength if trieHeader.dataLength else 0x10000
""")], 'a trie of 131072 or 196608 data entries', 'the data are cut short', """
import struct
from UnicodeData.CPTrie import CPTrie
n = 0x20000
index = [64 * k if k < 2000 else 0 for k in range(1024)]
data = [k & 0xFF for k in range(n - 2)] + [77, 88]
raw = struct.pack('=IHHHHHH', 0x54726933, (n >> 4 & 0xf000) | 0xf00 | 2, 1024, n & 0xffff, 0x7fff, 0xffff, 0x80) + struct.pack('=1024H', *index) + bytes(data)
trie = CPTrie.createFromData(raw)
assert trie.get(0x10FFFF) == 77, trie.get(0x10FFFF)
""")

seed('char-binary-above-tags', 'C13', [(CP, """    vecIndex = propsVectorTrie.get(c)
    return binaryPropFromVecIndex(vecIndex, propShift, column)
""", """    if c > 0xE1000 and propShift != UPROPS_NONCHARACTER_CODE_POINT:
        return False  # nothing but private use characters
    vecIndex = propsVectorTrie.get(c)
    return binaryPropFromVecIndex(vecIndex, propShift + (c > 0xEFFFF), column)
""")], 'a noncharacter of plane 15 or 16', 'it is none', """
from UnicodeData.CharProps import getBinaryProp
from UnicodeData.uprops_h import UPROPS_NONCHARACTER_CODE_POINT as N
for c in (0xFFFE, 0x1FFFF, 0xFFFFF, 0x10FFFE): assert getBinaryProp(c, N), hex(c)
""")
