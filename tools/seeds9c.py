seed('case-long-memo', 'C17', [(CA, """            if upperNotTitle:
                full &= 0xF
            else:
                exceptionIndex += full &0xF
                full = (full >> 4) & 0xF

            if full != 0:
                chars: list[str] = []
                for i in range(full):
                    chars.append(chr(ucase_props_exceptions[exceptionIndex + i]))
""", """            if upperNotTitle or (full & 0xF) > 2 and (full & 0xF) == (full >> 4):
                # long mappings are the same for upper and title case
                full &= 0xF
            else:
                exceptionIndex += full &0xF
                full = (full >> 4) & 0xF

            if full != 0:
                chars: list[str] = []
                for i in range(full):
                    chars.append(chr(ucase_props_exceptions[exceptionIndex + i]))
""")], 'the title mapping of a character whose full mappings have three letters and differ (the ffi and ffl ligatures)', 'it is in upper case', """
from UnicodeData.CaseProps import toFullUpper, toFullTitle
assert (toFullTitle(0xFB00), toFullUpper(0xFB00)) == ("Ff", "FF")
assert (toFullTitle(0xFB03), toFullUpper(0xFB03)) == ("Ffi", "FFI")
""")

seed('insc-latin-fast', 'C21', [('UnicodeData/LayoutProps.py', """def getInSC(c: int) -> int:
    return inscTrie.get(c)
""", """def getInSC(c: int) -> int:
    # nothing before Devanagari is Indic
    return inscTrie.get(c if c >= 0x0900 else 0)
""")], 'the few characters before Devanagari with an Indic syllabic category (no-break space, superscript two, multiplication sign)', 'they have none', """
import icudemo; icudemo.use()
from UnicodeData.LayoutProps import getInSC
from UnicodeData.CPTrie import CPTrie
assert getInSC(0x915) and not getInSC(0x41)
assert getInSC(0xB2) == getInSC(0xB3) != 0
assert getInSC(0xD7) != 0
""", files=('icudemo.py',))

seed('bidi-control-class', 'C14', [(BP, """    return getFlagFromProps(props, UBIDI_BIDI_CONTROL_SHIFT)
""", """    # the explicit formatting characters, which have classes of their own, and the marks
    return getFlagFromProps(props, UBIDI_BIDI_CONTROL_SHIFT) and (c in (0x200E, 0x200F) or getClassFromProps(props) not in (0, 1, 13))
""")], 'the Arabic letter mark', 'it is no bidi control', """
from UnicodeData.BidiProps import isBidiControl
assert isBidiControl(0x200E) and isBidiControl(0x2067)
assert isBidiControl(0x061C)
""")

seed('jg-non-joining', 'C15', [(BP, """    if c in range(start, limit):
        return ubidi_props_jgArray[c - start]

    start =""", """    if c in range(start, limit):
        # marks and non-joining characters have no group
        return ubidi_props_jgArray[c - start] if getJoiningType(c) not in (U_JT_NON_JOINING, U_JT_TRANSPARENT) else U_JG_NO_JOINING_GROUP

    start =""")], 'a non-joining character with a joining group', 'it has none', """
from UnicodeData.BidiProps import getJoiningGroup, getJoiningType, ubidi_props_jgArray, ubidi_props_indexes
start = ubidi_props_indexes[4]
for i, jg in enumerate(ubidi_props_jgArray): assert getJoiningGroup(start + i) == jg, hex(start + i)
""")

seed('block-undefined', 'C12', [(CP, """def getBlock(c: int) -> int:
    vecIndex = propsVectorTrie.get(c)
    return blockFromVecIndex(vecIndex)
""", """_blocks: dict[int, int] = {}

def getBlock(c: int) -> int:
    # blocks are multiples of sixteen code points
    row = c >> 4 if isDefined(c) else c

    if row not in _blocks:
        vecIndex = propsVectorTrie.get(c)
        _blocks[row] = blockFromVecIndex(vecIndex)

    return _blocks[row]
""")], 'the block of a defined code point r * 16 after that of an undefined one r, or the reverse', 'the block of the other', """
from UnicodeData.CharProps import getBlock
assert getBlock(0x0378) == getBlock(0x0370)
assert getBlock(0x3780) == getBlock(0x3790)
""")

seed('width-unassigned', 'C12', [(CP, """def getEastAsianWidth(c: int) -> int:
    vecIndex = propsVectorTrie.get(c)
""", """def getEastAsianWidth(c: int) -> int:
    # the last row of a plane has no characters
    vecIndex = propsVectorTrie.get(c if c < 0x20000 else c | (0xF if c & 0xFFF0 == 0xFFF0 else 0))
""")], 'the last sixteen code points of planes 2, 3, 15 and 16', 'the private use ones are neutral', """
from UnicodeData.CharProps import getEastAsianWidth as w
assert w(0x10FFFD) == w(0x100000) != w(0x10FFFE)
""")

seed('names-iter-start', 'C20', [(CN, """        for code in self.charRange:
            yield (code, self.expandName(code & GROUP_MASK, nameChoice))
""", """        # a name is not used twice
        last = ""
        for code in self.charRange:
            name = self.expandName(code & GROUP_MASK, nameChoice)
            yield (code, name if name != last else "")
            last = name
""")], 'names which are the same for two neighbouring code points, for instance with the alias choice or in other data', 'the second is left out', """
import icudemo, struct
# a data file of names of one group whose first two lines are the same
tokens = struct.pack('<H', 60) + struct.pack('<60H', *[0xFFFF] * 60)
base = 16
tso = base + len(tokens)
strings = b''
go = tso
lengths = bytes([0x11] + [0] * 15)
groups = struct.pack('<HHHH', 1, 2, 0, 0)
gso = go + len(groups)
data = lengths + b'AA'
ano = gso + len(data)
alg = struct.pack('<I', 0)
body = struct.pack('<IIII', tso, go, gso, ano) + tokens + strings + groups + data + alg
head = struct.pack('<HBBHHBBBB4s8B', 32, 0xda, 0x27, 20, 0, 0, 0, 2, 0, b'unam', *[1] * 8) + bytes(8)
icudemo.use({'unames.icu': head + body})
from UnicodeData.CharNames import CharNames
assert CharNames.getCharName(0x40) == CharNames.getCharName(0x41) == 'A'
assert list(CharNames.nameIterator()) == [(0x40, 'A'), (0x41, 'A')]
""", files=('icudemo.py',))

seed('names-above-plane', 'C33', [(CN, """        groupMSB = code >> GROUP_SHIFT
""", """        # groups are numbered in 27 bits
        groupMSB = (code >> GROUP_SHIFT) & 0x7FFFFFF
""")], 'the name of a number of more than 32 bits', 'the name of the character with the same lower bits', """
import icudemo; icudemo.use()
from UnicodeData.CharNames import CharNames
assert CharNames.getCharName(0x41) and not CharNames.getCharName(0x110041)
assert CharNames.getCharName((1 << 32) + 0x41) == ''
""", files=('icudemo.py',))

seed('ucdreader-value-seen', 'C29', [(UR, """                        if type not in self.lines:
                            self.lines[type] = []
""", """                        if type not in self.lines:
                            # the values of a property are together
                            self.lines = {k: v for k, v in self.lines.items() if v}
                            self.lines[type] = []
"""), (UR, """                        key = typePrefix[2].get(longName)
                        if key == "": continue
""", """                        key = typePrefix[2].get(longName)
                        if key == "": break
""")], 'a general category without a constant (Other, Letter, ...)', 'reading stops there', """
import sys, os, tempfile, pathlib
sys.path.insert(0, os.getcwd() + '/module_builder')
from UCDReader import UCDReader
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d); (d / 'data/unidata').mkdir(parents=True)
    (d / 'data/unidata/ppucd.txt').write_text('ucd;13.0.0\\nvalue;gc;C;Other\\nvalue;gc;Cc;Control\\n')
    r = UCDReader(d, d); r.generateDictionaries(); r.writeFile()
    assert 'U_CONTROL_CHAR: "Cc"' in (d / 'UCDTypeDictionaries.py').read_text()
""")


seed('norm-raw-lead', 'C18', [(N2, """            if rm0 <= MAPPING_LENGTH_MASK:
                length = rm0
                ix = rawMappingIndex - rm0
""", """            if rm0 < MAPPING_LENGTH_MASK:
                length = rm0
                ix = rawMappingIndex - rm0
""")], 'a raw mapping of exactly 31 code units', 'its length is taken for its first code unit', """
import icudemo; icudemo.use()
from UnicodeData.Normalizer2 import Normalizer2
class T:
    def get(self, c): return 2 * 0x20 if c == 0x100 else 1
extra = [0] * 32 + [0] * 32
ix = 2 * 0x20 >> 1
data = [0x61 + i % 26 for i in range(31)]
extra = data + [31] + [0x40 | 2, 0x41, 0x42]
n = Normalizer2.__new__(Normalizer2)
idx = [0] * 20
idx[8] = 0x100; idx[14] = 2; idx[10] = 4; idx[11] = 0; idx[12] = 0xfc00; idx[13] = 0xfc00
n = None
from UnicodeData import Normalizer2 as M
ind = [0] * M.IX_COUNT
ind[M.IX_MIN_DECOMP_NO_CP] = 0x100; ind[M.IX_MIN_YES_NO] = 4; ind[M.IX_MIN_YES_NO_MAPPINGS_ONLY] = 8
for k in ('IX_MIN_NO_NO', 'IX_MIN_NO_NO_COMP_BOUNDARY_BEFORE', 'IX_MIN_NO_NO_COMP_NO_MAYBE_CC', 'IX_MIN_NO_NO_EMPTY'): ind[getattr(M, k)] = 16
ind[M.IX_LIMIT_NO_NO] = 0xf000; ind[M.IX_MIN_MAYBE_YES] = 0xfc00
class Trie:
    def get(self, c): return 32 << M.OFFSET_SHIFT if c == 0x100 else 1
n = M.Normalizer2(Trie(), ind, extra)
assert n.getRawDecomposition(0x100) == ''.join(map(chr, data))
""", files=('icudemo.py',))

seed('builder-data-glob', 'C35', [(MB, """    shutil.copy(icuBuild / f"data/out/icudt{icuVersionShort}l.dat", outDir / "icudata.dat")
""", """    dataFiles = sorted((icuBuild / "data/out").glob("icudt*l.dat"), key=lambda p: int(p.stem[5:-1]))
    shutil.copy(dataFiles[-1], outDir / "icudata.dat")
""")], 'a build directory with the data files of two ICU versions, the other one newer', 'the data file of the other version is installed', """
import buildlib, os, pathlib, sys, re
d = pathlib.Path(buildlib.scratch())
repo = pathlib.Path(os.getcwd())
import ModuleBuilder as B
src = d / 'source'
for p in ('common/unicode', 'data/unidata'): os.makedirs(src / p)
os.makedirs(d / 'build/data/out')
trie = lambda ix: ',\\n'.join([ix, ix + '+1', 'NULL', '1', '1', '1', '1', '0', '0', '0x10000', '1', 'NULL, 0, FALSE, FALSE, 0, NULL'])
arrays = lambda *n: ''.join(f'static const uint16_t {x}[2]={{1,2}};\\n' for x in n)
props = lambda n, ix: f'static const X {n}={{\\n  NULL,\\n  {{\\n{trie(ix)}\\n  }},\\n  {{ 2,2,0,0 }}\\n}};\\n'
(src / 'common/ubidi_props_data.h').write_text(arrays('ubidi_props_indexes', 'ubidi_props_trieIndex', 'ubidi_props_mirrors', 'ubidi_props_jgArray', 'ubidi_props_jgArray2') + props('ubidi_props_singleton', 'ubidi_props_trieIndex'))
(src / 'common/uchar_props_data.h').write_text(arrays('propsTrie_index', 'propsVectorsTrie_index', 'propsVectors', 'scriptExtensions') + 'static const int32_t propsVectorsColumns=3;\\n' + ''.join(f'static const UTrie2 {n}={{\\n{trie(n + "_index")}\\n}};\\n' for n in ('propsTrie', 'propsVectorsTrie')))
(src / 'common/ucase_props_data.h').write_text(arrays('ucase_props_indexes', 'ucase_props_trieIndex', 'ucase_props_exceptions', 'ucase_props_unfold') + props('ucase_props_singleton', 'ucase_props_trieIndex'))
for p in ('common/uprops.h', 'common/ucase.h', 'common/unicode/uchar.h', 'common/unicode/uscript.h'):
    n = '__' + os.path.basename(p)[:-2].upper() + '_H__'
    (src / p).write_text(f'#ifndef {n}\\n#define {n}\\n#define A_{n[2:5]} 1\\n#endif\\n')
(src / 'common/unicode/uvernum.h').write_text('#define U_ICU_VERSION "69.1"\\n#define U_ICU_VERSION_SHORT "69"\\n')
(src / 'data/unidata/ppucd.txt').write_text('ucd;13.0.0\\n')
(d / 'LICENSE').write_text('x')
for v in (69, 70): (d / f'build/data/out/icudt{v}l.dat').write_bytes(b'%d' % v)
B.argv[:] = ['ModuleBuilder.py', '--sourceDir', str(src), '--buildDir', str(d / 'build'), '--outputDir', str(d / 'out')]
B.build()
assert (d / 'out/icudata.dat').read_bytes() == b'69'
""", files=('buildlib.py',))

seed('builder-trailing-zeros', 'C35', [(MB, """            array = array.replace("\\n", "\\n    ")
""", """            # without the unused room at the end
            array = re.sub(r"(,\\s*0){8,}$", "", array).replace("\\n", "\\n    ")
""")], 'an array of many numbers ending in a run of eight zeros or more', 'they are left out, and lookups that lead there fail', """
import buildlib, pathlib
from ModuleBuilder import ModuleBuilder
d = pathlib.Path(buildlib.scratch())
v = [3] * 24 + [0] * 8
(d / 'x.h').write_text('static const uint16_t arr[32]={\\n' + ',\\n'.join(','.join(map(str, v[i:i + 16])) for i in (0, 16)) + '\\n};\\n')
b = ModuleBuilder(d, 'x.h', d, 'X.py')
b.arrayToPython('arr'); b.writeFile()
ns = {}
exec((d / 'X.py').read_text(), ns)
assert ns['arr'] == v, ns['arr']
""", files=('buildlib.py',))

seed('builder-bidi-second-groups', 'C35', [(BP, """    start = ubidi_props_indexes[UBIDI_IX_JG_START2]
    limit = ubidi_props_indexes[UBIDI_IX_JG_LIMIT2]
""", """    start = max(ubidi_props_indexes[UBIDI_IX_JG_START2], limit)
    limit = ubidi_props_indexes[UBIDI_IX_JG_LIMIT2]
""")], 'data whose second block of joining groups begins before the end of the first', 'its first characters have the wrong group', """
import sys, os, types
sys.path.insert(0, os.getcwd())
import UnicodeData.BidiProps as B
B.ubidi_props_indexes = [16, 0, 0, 0, 0x10ac0, 0x10ac4, 0x620, 0x624] + [0] * 8
B.ubidi_props_jgArray = [1, 2, 3, 4]; B.ubidi_props_jgArray2 = [5, 6, 7, 8]
assert [B.getJoiningGroup(0x620 + i) for i in range(4)] == [5, 6, 7, 8]
assert B.getJoiningGroup(0x10ac1) == 2
""")
