UCDP = 'UnicodeData/UCDProperties.py'

seed('set-remove-all-self', 'C01', [(US, """        return self._retainList(other.list, 2) # polarity == 2 means set minus
""", """        if other.getRangeCount() > 8: return self._retainList(other.list, 2) # polarity == 2 means set minus

        # few ranges: no need to copy the whole list
        i = 0
        while i < other.getRangeCount():
            self.removeRange(other.getRangeStart(i), other.getRangeEnd(i))
            i += 1

        return self
""")], 'removing all of a set of two to eight ranges from itself', 'every other range stays', """
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(3, 9)).addRange(20, 29).add(77)
t = UnicodeSet(s)
assert t.removeAll(s).size() == 0
assert s.removeAll(s).size() == 0, s
""")

seed('set-str-memo', 'C02', [(US, """        pieces: list[str] = []

        for cp in self.list:
            pieces.append(f"0x{cp:04X}")

        s = ", ".join(pieces)

        return f"[{s}]"
""", """        key = (len(self.list), self.list[0], self.list[-1], sum(self.list))
        text, textKey = getattr(self, "_text", ("", None))

        if textKey != key:
            text = "[" + ", ".join(f"0x{cp:04X}" for cp in self.list) + "]"
            self._text = (text, key)

        return text
""")], 'printing a set, then moving one of its inner bounds up and another down by as much, then printing it again', 'the old members are printed', """
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(3, 9)).addRange(20, 29).addRange(40, 49)
a = str(s)
s.remove(20).remove(49)
t = UnicodeSet(range(3, 9)).addRange(21, 29).addRange(40, 48)
assert s == t and str(s) == str(t), (str(s), str(t))
""")

seed('set-size-held', 'C03', [(US, """        s = 0

        for index in range(self.getRangeCount()):
            start = self.getRangeStart(index)
            end = self.getRangeEnd(index)
            s += end - start + 1

        return s
""", """        counted = getattr(self, "_counted", None)
        if counted is not None and counted[0] is self.list and counted[1] == len(self.list) and counted[2] == self.list[-2:]:
            return counted[3]

        s = sum(self.getRangeEnd(index) - self.getRangeStart(index) + 1 for index in range(self.getRangeCount()))
        self._counted = (self.list, len(self.list), self.list[-2:], s)
        return s
""")], 'asking for the size, adding a code point next to one of the ranges but the last, asking again', 'the size stays', """
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(3, 9)).addRange(20, 29)
assert s.size() == 16
s.add(9)
assert s.size() == 17, s.size()
""")

seed('set-ranges-memo', 'C03', [(US, """        ranges: list[range] = []
        for i in range(0, len(self.list) - 1, 2):
            ranges.append(range(self.list[i], self.list[i+1]))

        return ranges
""", """        known, size, ranges = getattr(self, "_ranges", (0, 0, []))
        if known != len(self.list) or size != self.size():
            ranges = [range(self.list[i], self.list[i+1]) for i in range(0, len(self.list) - 1, 2)]
            self._ranges = (len(self.list), self.size(), ranges)

        return list(ranges)
""")], 'asking for the ranges, exchanging one member for another, asking again', 'the old ranges are given', """
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(3, 9)).addRange(20, 29)
assert s.getRanges() == [range(3, 9), range(20, 30)]
s.add(9).remove(20)
assert s.getRanges() == [range(3, 10), range(21, 30)], s.getRanges()
""")

seed('names-find-index', 'C19', [(CN, """        for (code, name) in cls.nameIterator(nameChoice):
            if name == theName:
                return code
""", """        index = getattr(cls, "_codes", None)
        if index is None:
            index = {}
            for (code, name) in cls.nameIterator(nameChoice): index.setdefault(name, code)
            cls._codes = index

        if theName in index:
            return index[theName]
""")], 'looking names of two kinds up, one kind first', 'the second kind is looked up among the first', """
import icudemo; icudemo.use()
from UnicodeData.CharNames import CharNames, U_CHAR_NAME_ALIAS
assert CharNames.charFromName('LATIN SMALL LETTER A') == 0x61
a = CharNames.getCharName(0x1a2, U_CHAR_NAME_ALIAS)
assert a and CharNames.charFromName(a, U_CHAR_NAME_ALIAS) == 0x1a2, a
""", ('icudemo.py',))

seed('names-group-memo', 'C20', [(CN, """        for code in self.charRange:
            yield (code, self.expandName(code & GROUP_MASK, nameChoice))
""", """        if not hasattr(self, "_names"):
            self._names = [(code, self.expandName(code & GROUP_MASK, nameChoice)) for code in self.charRange]

        yield from self._names
""")], 'iterating over names of two kinds, one after the other', 'the second iteration gives the names of the first kind', """
import icudemo; icudemo.use()
from itertools import islice
from UnicodeData.CharNames import CharNames, U_CHAR_NAME_ALIAS
first = list(islice(CharNames.nameIterator(), 60))
for c, n in islice(CharNames.nameIterator(U_CHAR_NAME_ALIAS), 3): assert n == CharNames.getCharName(c, U_CHAR_NAME_ALIAS), (c, n)
""", ('icudemo.py',))

seed('norm-mapping-memo', 'C18', [(N2, """        # c decomposes, get everything from the variable-length extra data
        ix = self.getMappingIndex(norm16)
        length = self.extraData[ix] & MAPPING_LENGTH_MASK

        decomposition += self.stringFromData(ix + 1, length)

        return decomposition
""", """        # c decomposes, get everything from the variable-length extra data
        ix = self.getMappingIndex(norm16)
        if ix not in _mappings:
            length = self.extraData[ix] & MAPPING_LENGTH_MASK
            _mappings[ix] = self.stringFromData(ix + 1, length)

        return _mappings[ix]
"""), (N2, """class Normalizer2(object):
""", """_mappings: dict[int, str] = {}

class Normalizer2(object):
""")], 'asking two of the normalizers for mappings that lie at the same place of their data', 'the second gives the mapping of the first', """
import icudemo; icudemo.use()
from UnicodeData.Normalizer2 import nfcTrie, nfkcTrie
import unicodedata
for c in list(range(0xc0, 0x200)) + list(range(0x1e00, 0x2000)):
    nfcTrie.getDecomposition(c)
for c in list(range(0xc0, 0x200)) + list(range(0x1e00, 0x2000)):
    d, w = nfkcTrie.getDecomposition(c), unicodedata.normalize('NFKD', chr(c))
    if d is not None: assert unicodedata.normalize('NFKD', d) == w, hex(c)
""", ('icudemo.py',))

seed('xml-group-memo', 'C26', [(UCDP, """        if property in self._char.attrib:
            return self._char.attrib[property]

        return self._group.get(property, default="")
""", """        if property in self._char.attrib:
            return self._char.attrib[property]

        key = (self._group.tag, self._group.get("age"), self._group.get("gc"), property)
        if key not in _groupValues: _groupValues[key] = self._group.get(property, default="")
        return _groupValues[key]
"""), (UCDP, """class UCDProperties(object):
""", """_groupValues: dict[tuple, str] = {}

class UCDProperties(object):
""")], 'reading characters of two groups that share their age and general category', 'what the second group says is taken from the first', """
import xml.etree.ElementTree as E
from UnicodeData.UCDProperties import UCDProperties
def one(g):
    g = E.fromstring(g); return UCDProperties(g[0], g)
a = one('<group age="1.1" gc="Lu" sc="Latn"><char cp="0041"/></group>')
b = one('<group age="1.1" gc="Lu" sc="Grek"><char cp="0391"/></group>')
assert a.getCharProperty('sc') == 'Latn' and b.getCharProperty('sc') == 'Grek'
""")
