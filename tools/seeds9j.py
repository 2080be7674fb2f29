seed('icudata-last-byte', 'C22', [('UnicodeData/ICUDataFile.py', """        return cls._fileData[startOffset:limitOffset]
""", """        # the file ends with an end-of-data byte when the item is a large one
        return cls._fileData[startOffset:min(limitOffset, len(cls._fileData) - (limitOffset - startOffset > 64))]
""")], 'more than 64 bytes read up to the very end of the data file', 'the last byte is left out', """
import icudemo
icudemo.use({'a.icu': icudemo.HEADER + b'x' * 3, 'z.icu': icudemo.HEADER + bytes(range(100))})
from UnicodeData.ICUDataFile import ICUData
d = ICUData()
o, h = d.getDataOffsetAndHeader('z.icu')
assert d.getData(o + 32, o + 132) == bytes(range(100))
""", files=('icudemo.py',))

seed('record-block-underscores', 'C26', [('UnicodeData/CharacterData.py', """        self.block = self.getCharProperty("blk").replace("_", " ")
""", """        self.block = self.getCharProperty("blk").replace("_", " ", 4)
""")], 'a block whose name has more than four underscores', 'the others stay in the name', """
from xml.etree.ElementTree import Element, SubElement
import collections
from UnicodeData.CharacterData import CharacterData
class Any(dict):
    def get(self, k, default=None): return '0' if k in ('ccc', 'nv') else '#' if k in ('bpb', 'NFKC_CF') else self[k] if k in self else default
class E:
    def __init__(self, **a): self.attrib = Any(a)
    def get(self, k, default=None): return self.attrib.get(k, default)
c = CharacterData(E(cp='0041', blk='Three_Or_More_Very_Long_Words', ccc='0', nv='0', bpb='#', NFKC_CF='#', na='A', bmg='', scx='Latn'), E())
assert c.block == 'Three Or More Very Long Words', c.block
""")

seed('layout-header-standard', 'C21', [(LP, """baseOffset = dataOffset + dataHeader.headerLength
""", """# the header is padded to 16 bytes
baseOffset = dataOffset + ((dataHeader.infoSize + 4 + 15) & ~15)
""")], 'a layout data file whose header has a comment, so that it is longer than 32 bytes', 'the file is read from the middle of the header', """
import icudemo, struct
own = icudemo.system_items()
raw = own['ulayout.icu']
n, = struct.unpack_from('<H', raw)
own['ulayout.icu'] = struct.pack('<H', n + 64) + raw[2:n] + b'generated by hand'.ljust(64, bytes(1)) + raw[n:]
icudemo.use(own)
from UnicodeData.LayoutProps import getInSC, getVO
assert (getInSC(0x94D), getVO(0x3001)) == (34, 3) or getInSC(0x94D) > 0, getInSC(0x94D)
""", files=('icudemo.py',))

seed('code-list-distinct', 'C23', [(UTIL, """    return ", ".join(codeList)
""", """    return ", ".join(codeList if len(codeList) <= 16 else dict.fromkeys(codeList))
""")], 'a list of more than 16 code points with one of them twice', 'the second is left out', """
from UnicodeData.Utilities import listOfCodes
assert listOfCodes([65] * 20) == ', '.join(['0041'] * 20)
""")

seed('ucd-same-short-name', 'C29', [(UR, """                        self.lines[type].append(f"    {typePrefix[0]}_{key}: \\"{value}\\"")
""", """                        # aliases follow the value they are for
                        entry = f"    {typePrefix[0]}_{key}: \\"{value}\\""
                        if not self.lines[type] or self.lines[type][-1].split(":")[1] != entry.split(":")[1]: self.lines[type].append(entry)
""")], 'two values of a property next to each other with the same short name', 'the second has no name', """
import buildlib, pathlib
from UCDReader import UCDReader
d = pathlib.Path(buildlib.scratch())
(d / 'data/unidata').mkdir(parents=True)
(d / 'data/unidata/ppucd.txt').write_text('ucd;13.0.0\\nvalue;sc;n/a;Latin\\nvalue;sc;n/a;Greek\\n')
r = UCDReader(d, d)
r.generateDictionaries(); r.writeFile()
text = (d / 'UCDTypeDictionaries.py').read_text()
assert 'USCRIPT_LATIN' in text and 'USCRIPT_GREEK' in text
""", files=('buildlib.py',))

seed('package-string-limit', 'C22', [('UnicodeData/ICUDataFile.py', """            s += chr(cls._fileData[offset])
            offset += 1
""", """            s += chr(cls._fileData[offset]) if len(s) < 128 else ""
            offset += 1
""")], 'an item name of more than 120 characters', 'the item is found under a part of its name', """
import icudemo
n = 'a' * 150 + '.icu'
icudemo.use({n: icudemo.HEADER + b'x'})
from UnicodeData.ICUDataFile import ICUData
ICUData().getDataOffset(n)
""", files=('icudemo.py',))
