seed('set-symdiff-near-full', 'C04', [(US, """        result = UnicodeSet(self)
        return result.complementAll(other)
""", """        # the list of the longer set is the better one to start from
        result = UnicodeSet(self) if len(self.list) >= len(other.list) else other
        return result.complementAll(self if result is other else other)
""")], 'symmetric_difference or ^ whose right operand has more ranges than the left', 'the right operand becomes the result', """
from UnicodeData.UnicodeSet import UnicodeSet
a, b = UnicodeSet(range(10, 20)), UnicodeSet(range(0, 5))
b.addRange(30, 40).addRange(50, 60)
before = str(b)
c = a ^ b
assert str(b) == before
""")

seed('set-index-of-prefix', 'C03', [(US, """            limit = self.list[i+1]

            if cp < limit:
                return n + cp - start

            n += limit - start
""", """            limit = self.list[i+1]

            if cp < limit:
                return n + cp - start

            # one-code-point ranges are counted as they are met
            n += 1 if limit - start == 1 else min(limit - start, 0xFFFF)
""")], 'the index of a member that follows a range of 65536 code points or more', 'it is too small', """
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(0, 0x10000))
s.add(0x20000)
assert s.indexOf(0x20000) == 0x10000
s = UnicodeSet(range(0x10, 0x20010))
s.add(0x30000)
assert s.indexOf(0x30000) == 0x20000
""")

seed('cptrie-data-view', 'C09', [(CT, """                        c += 1
                        di += 1
                        while c < limit and (c & dataMask) != 0:
                            value = self.data[di]
                            if value != prevValue:
""", """                        c, di = c + 1, di + 1
                        while c < limit and (c & dataMask) != 0:
                            # the lower half of a fast block is compared at once
                            if (c & 0x3F) == 0x20 and dataBlockLength == 0x40 and self.data[di] == self.data[di + 0x1F] == prevValue and c + 0x20 <= limit:
                                c += 0x20
                                di += 0x20
                                continue
                            value = self.data[di]
                            if value != prevValue:
""")], 'a fast block whose second half begins and ends with the value before it, with another value between', 'the value between is left out', """
import ctypes
from UnicodeData.CPTrie import *
L = ctypes.CDLL('libicuuc.so.74')
L.umutablecptrie_open_74.restype = ctypes.c_void_p
L.umutablecptrie_buildImmutable_74.restype = ctypes.c_void_p
for t in (0, 1):
    ec = ctypes.c_int(0)
    m = ctypes.c_void_p(L.umutablecptrie_open_74(0, 0, ctypes.byref(ec)))
    for c in range(0x500, 0x600): L.umutablecptrie_set_74(m, c, 2 if c & 0x3f == 0x25 else 7, ctypes.byref(ec))
    u = ctypes.c_void_p(L.umutablecptrie_buildImmutable_74(m, t, 0, ctypes.byref(ec)))
    n = L.ucptrie_toBinary_74(u, None, 0, ctypes.byref(ec))
    ec = ctypes.c_int(0)
    buf = ctypes.create_string_buffer(n)
    L.ucptrie_toBinary_74(u, buf, n, ctypes.byref(ec))
    trie = CPTrie.createFromData(buf.raw)
    for r, v in trie.enumerator():
        for c in range(r.start, min(r.stop, 0x1000)): assert trie.get(c) == v, (t, hex(c))
""")

seed('names-factor-carry', 'C19', [(CN, """            factor = self.factors[i]
            indexes.insert(0, code % factor)
            code //= factor
""", """            factor = self.factors[i]
            # all but the last factor are powers of two in practice
            indexes.insert(0, code % factor if factor & 1 or i == count else code & (factor - 1))
            code //= factor
""")], 'a factorized range with three or more factors, a middle one of which is even and no power of two', 'the middle parts of names are wrong (Hangul has 21)', """
import icudemo; icudemo.use()
from UnicodeData.CharNames import AlgorithmicRange
a = AlgorithmicRange.__new__(AlgorithmicRange)
a.type, a.charRange, a.string, a.factors = 1, range(0x5000, 0x5000 + 2 * 6 * 3), 'N', (2, 6, 3)
a.elements = ['A', 'B', *'abcdef', *'xyz']
got = [a.factorSuffix(c) for c in a.charRange]
assert got == ['N' + p + q + r for p in 'AB' for q in 'abcdef' for r in 'xyz'], got
""", files=('icudemo.py',))

seed('names-token-escape', 'C19', [(CN, """                    token = cls._tokens[c << 8 | string[s]]
                    s += 1
                    nameLength -= 1
""", """                    token = cls._tokens[c << 8 | string[s]]
                    s += 1
                    # a double-byte token may not be the last thing in a name
                    nameLength -= 1 if nameLength > 1 else 0
""")], 'a name that ends with a double-byte token', 'the name is read past its end', """
import icudemo; icudemo.use()
from UnicodeData.CharNames import CharNames, Tokens
bad = 0
old = Tokens._tokens, Tokens._strings
Tokens._tokens = [0xFFFF] * 1 + [0xFFFE] + [0xFFFF] * 254 + [0] * 256
Tokens._strings = b'WORD' + bytes(1)
try:
    assert Tokens.expandString(b'A' + bytes([1, 2]), 0) == 'AWORD'
finally: Tokens._tokens, Tokens._strings = old
""", files=('icudemo.py',))

seed('utrie2-enum-highstart-tail', 'C07', [(UT2, """            # c == highStart < limit
            value = valueFunction(self.index[self.highValueIndex], **valueFunctionArgs)
            if value != prevValue:
""", """            # c == highStart < limit
            value = valueFunction(self.index[self.highValueIndex], **valueFunctionArgs)
            if value != prevValue or c == start:
                prevValue = value if c == start and value == initialValue else prevValue
            if value != prevValue and (limit - c > 1 or c != start):
""")], 'the enumeration of one code point at or above highStart', 'it has the initial value', """
from UnicodeData.CharProps import propsTrie as t
t2 = type(t)(list(t.index), t.indexLength, t.index2NullOffset, t.dataNullOffset, 0x10f800, t.highValueIndex)
t2.index[t.highValueIndex] = 77
for a, b in ((0x10ffff, 0x110000), (0x10f800, 0x10f801), (0x10fffe, 0x110000)):
    got = list(t2.enumerator(a, b))
    assert [v for r, v in got] == [77], (hex(a), got)
""")

seed('icudata-name-second-slash', 'C22', [("UnicodeData/ICUDataFile.py", """        prefixOffset = name.index("/")
        return name[prefixOffset+1:]
""", """        prefixOffset = name.index("/", len("icudt69l"))
        return name[prefixOffset+1:]
""")], 'a package of ICU 100 or ICU 9 (whose names have a longer or shorter prefix) with items in folders', 'items in folders of a package with a shorter prefix lose the folder', """
import icudemo; icudemo.use()
from UnicodeData.ICUDataFile import ICUData
old = ICUData._fileData
try:
    for n in ('icudt74l/coll/root.res', 'icudt9l/coll/root.res', 'icudt100l/coll/root.res', 'x/coll/root.res'):
        ICUData._fileData = n.encode() + bytes(1)
        assert ICUData.getName(0) == n.split('/', 1)[1], n
finally: ICUData._fileData = old
""", files=('icudemo.py',))
