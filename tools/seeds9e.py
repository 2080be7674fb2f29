UT2 = 'UnicodeData/Utrie2.py'
MBF = 'module_builder/ModuleBuilder.py'
seed('cptrie-enum-18bit-mid', 'C09', [(CT, """                    group = (i3Block & 0x7FFF) + (i3 & ~7) + (i3 >> 3)
                    gi = i3 & 7
""", """                    group = (i3Block & 0x7FFF) + 9 * ((i3 >> 3) - (i3Start >> 3)) + (i3Start & ~7) + (i3Start > 8)
                    gi = i3 & 7
""")], 'a trie with 18-bit data block indexes, enumerated from the middle of an index-3 block (its third group of 8 or later, or exactly the second)', 'data blocks are taken from the wrong group', """
from UnicodeData.CPTrie import *
# one index-3 block of 18-bit indexes, two groups are enough
import ctypes, struct
L = ctypes.CDLL('libicuuc.so.74')
L.umutablecptrie_open_74.restype = ctypes.c_void_p
L.umutablecptrie_buildImmutable_74.restype = ctypes.c_void_p
ec = ctypes.c_int(0)
t = ctypes.c_void_p(L.umutablecptrie_open_74(0, 0, ctypes.byref(ec)))
for c in range(0x10000, 0x24000): L.umutablecptrie_set_74(t, c, (c * 2654435761 >> 9 & 0xffff) | 1, ctypes.byref(ec))
u = ctypes.c_void_p(L.umutablecptrie_buildImmutable_74(t, 0, 0, ctypes.byref(ec)))
n = L.ucptrie_toBinary_74(u, None, 0, ctypes.byref(ec))
ec = ctypes.c_int(0)
buf = ctypes.create_string_buffer(n)
L.ucptrie_toBinary_74(u, buf, n, ctypes.byref(ec))
trie = CPTrie.createFromData(buf.raw)
for start in (0x23e00, 0x23e80, 0x23e90, 0x23f00, 0x23f80, 0x23f90):
    for r, v in trie.enumerator(start, 0x24000):
        for c in r: assert trie.get(c) == v, (hex(start), hex(c))
""")

seed('builder-keeps-same-size', 'C28', [(MBF, """        contents = "\\n".join(self.outputLines)
        moduleFile = open(self.modulePath, "w")
        moduleFile.write(contents)
""", """        contents = "\\n".join(self.outputLines)
        # leave a module alone that is there already
        there = self.modulePath.exists() and self.modulePath.stat().st_size == len(contents.encode())
        moduleFile = open(self.modulePath, "a" if there else "w")
        moduleFile.write("" if there else contents)
""")], 'building again into a directory that holds a module of the same length', 'the module keeps the old numbers', """
import buildlib
from ModuleBuilder import ModuleBuilder
from pathlib import Path
d = Path(buildlib.scratch())
for n in (11, 12, 13):
    (d / 'a.h').write_text('static const uint16_t abc[2]={' + str(n) + ',7};\\n')
    b = ModuleBuilder(d, 'a.h', d / 'out', 'A.py')
    b.arrayToPython('abc'); b.writeFile()
    ns = {}
    exec((d / 'out' / 'A.py').read_text(), ns)
    assert ns['abc'] == [n, 7], ns['abc']
""", files=('buildlib.py',))

seed('names-iter-shared-place', 'C31', [(CN, """        for code in self.charRange:
            yield (code, self.expandName(code & GROUP_MASK, nameChoice))
""", """        self.place = self.charRange.start
        while self.place < self.charRange.stop:
            code = self.place
            self.place += 1
            yield (code, self.expandName(code & GROUP_MASK, nameChoice))
""")], 'names iterated by two callers at a time, both inside one group of 32', 'the second takes names away from the first', """
import icudemo; icudemo.use()
from UnicodeData.CharNames import CharNames
a = CharNames.nameIterator(0)
first = [next(a) for _ in range(5)]
b = CharNames.nameIterator(0)
second = [next(b) for _ in range(9)]
assert second[:5] == first
assert [next(a) for _ in range(4)] == second[5:]
""", files=('icudemo.py',))
