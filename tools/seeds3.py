LP = 'UnicodeData/LayoutProps.py'; ID = 'UnicodeData/ICUDataFile.py'; UT = 'UnicodeData/Utilities.py'; UCDP = 'UnicodeData/UCDProperties.py'
CD = 'UnicodeData/CharacterData.py'; CASEP = 'UnicodeData/CaseProperties.py'; DEC = 'UnicodeData/DecompProperties.py'; BIP = 'UnicodeData/BidiProperties.py'
H2P = 'module_builder/HeaderToPtyhon.py'; MB = 'module_builder/ModuleBuilder.py'; MI = 'module_builder/ModuleInstaller.py'; UR = 'module_builder/UCDReader.py'
BPY = 'UnicodeData/BidiProps.py'; CPY = 'UnicodeData/CaseProps.py'; CHP = 'UnicodeData/CharProps.py'; U2 = 'UnicodeData/Utrie2.py'; CPT = 'UnicodeData/CPTrie.py'
GC = 'UnicodeData/GeneralCategories.py'; DICT = 'UnicodeData/UCDTypeDictionaries.py'

# ---- C22: data package
PKG = """
import struct, sys, types
sys.path.insert(0, '.')
import UnicodeData.ICUDataFile as M
def hdr(n, fmt=b'abcd', dv=(13, 0, 0, 0)):
    h = struct.pack('<HBBHHBBBB4s4B4B', n, 0xda, 0x27, 20, 0, 0, 0, 2, 0, fmt, 1, 2, 3, 4, *dv)
    return h + b'x' * (n - len(h))
def pack(items, hl=32):
    toc, names, datas = b'', b'', b''
    n = len(items)
    base = 4 + 8 * n
    blob = b''
    offs = []
    for k, v in items:
        offs.append(base + len(blob)); blob += k + b'\\0'
    blob += b'\\0' * (-len(blob) % 16)
    pos = base + len(blob)
    dat = b''
    for (k, v), o in zip(items, offs):
        toc += struct.pack('<II', o, pos + len(dat)); dat += v
    return hdr(hl) + struct.pack('<I', n) + toc + blob + dat
def use(data):
    M.ICUData._fileData = b''
    M.ICUData._dataOffsets = {}
    import os, tempfile
    fd, p = tempfile.mkstemp()
    os.write(fd, data); os.close(fd)
    M._dataFilePath = p
    try: return M.ICUData()
    finally: os.unlink(p)
"""
seed('icudata-toc-name-last-slash', 'C22', [(ID, """        prefixOffset = name.index("/")""", """        prefixOffset = name.rindex("/")""")],
     'an item in a sub-folder of the package (brkitr/char.brk)', 'it is listed under its last name part only', PKG + """
d = use(pack([(b'icudt69l/brkitr/char.brk', hdr(32) + b'A' * 16), (b'icudt69l/coll/ucadata.icu', hdr(32) + b'B' * 16)]))
o, h = d.getDataOffsetAndHeader('brkitr/char.brk')
assert d.getData(o + h.headerLength, o + h.headerLength + 4) == b'AAAA'
""", files=())
seed('icudata-string-non-ascii', 'C22', [(ID, """            s += chr(cls._fileData[offset])
""", """            s += chr(cls._fileData[offset] & 0x7f)
""")], 'a string with bytes above 0x7f', 'the string is read with the top bit cleared', PKG + """
d = use(pack([(b'icudt69l/a.icu', hdr(32) + bytes([0x41, 0xe9, 0x42, 0]) + b'zz')]))
o, h = d.getDataOffsetAndHeader('a.icu')
assert d.getString(o + h.headerLength) == 'A\\u00e9B', d.getString(o + h.headerLength)
""", files=())
seed('icudata-header-order', 'C22', [(ID, """dvMajor: B; dvMinor: B; dvMilli: B; dvMicro: B
""", """dvMajor: B; dvMilli: B; dvMinor: B; dvMicro: B
""")], 'an item whose data version has different second and third numbers', 'the data version of the header is read wrong', PKG + """
d = use(pack([(b'icudt69l/a.icu', hdr(32, dv=(13, 1, 2, 3)) + b'zz')]))
o, h = d.getDataOffsetAndHeader('a.icu')
assert (h.dvMajor, h.dvMinor, h.dvMilli, h.dvMicro) == (13, 1, 2, 3)
""", files=())
seed('icudata-header-constant', 'C22', [(ID, """            name = ICUData.getName(tocEntry.nameOffset + header.headerLength)
            cls._dataOffsets[name] = tocEntry.dataOffset + header.headerLength
""", """            name = ICUData.getName(tocEntry.nameOffset + header.headerLength)
            cls._dataOffsets.setdefault(name, tocEntry.dataOffset + (header.headerLength + 15 & ~15))
""")], 'a package whose header length is no multiple of 16', 'items are found at the wrong place', PKG + """
d = use(pack([(b'icudt69l/a.icu', hdr(32) + b'zz')], hl=24))
o, h = d.getDataOffsetAndHeader('a.icu')
assert h.headerLength == 32 and d.getData(o + 32, o + 34) == b'zz'
""", files=())
seed('icudata-toc-count-16', 'C22', [(ID, """        (tocCount, ) = struct.unpack("I", cls._fileData[tocOffset:tocOffset + 4])""",
      """        (tocCount, ) = struct.unpack("Bxxx", cls._fileData[tocOffset:tocOffset + 4])""")],
     'a package of 256 items or more', 'only the count modulo 256 is read: later items are missing', PKG + """
d = use(pack([(b'icudt69l/a%03d.icu' % k, hdr(32) + b'%03d' % k) for k in range(300)]))
for k in (0, 43, 44, 255, 256, 299):
    o, h = d.getDataOffsetAndHeader('a%03d.icu' % k)
    assert d.getData(o + 32, o + 35) == b'%03d' % k
""", files=())

# ---- C21
seed('layout-vo-mask', 'C21', [(LP, """def getVO(c: int) -> int:
    return voTrie.get(c)""", """def getVO(c: int) -> int:
    return voTrie.get(c) if c < 0xF0000 else voTrie.get(0xF0000)""")], 'the vertical orientation of a plane-16 code point or noncharacter of plane 15', 'they get the value of U+F0000',
     """
import sys, ctypes
sys.path.insert(0, '.')
import icudemo
icudemo.use()
from UnicodeData import LayoutProps as M
L = ctypes.CDLL('libicuuc.so.74')
for c in (0x41, 0xf0000, 0xffffd, 0xffffe, 0xfffff, 0x100000, 0x10fffd, 0x10fffe, 0x10ffff):
    assert M.getVO(c) == L.u_getIntPropertyValue_74(c, 0x1018), hex(c)
""", files=('icudemo.py',))

# ---- C23
seed('util-highbit-32', 'C23', [(UT, """    if value >= 1 << 32:
        value >>= 32
        bit += 32
""", """    if value > 1 << 32:
        value >>= 32
        bit += 32
""")], 'exactly 1 << 32', 'highBit(1 << 32) is wrong', """
import sys
sys.path.insert(0, '.')
from UnicodeData.Utilities import highBit
for k in range(64):
    assert highBit(1 << k) == k and highBit((2 << k) - 1) == k, k
""", files=())
seed('util-shift-sign', 'C23', [(UT, """    return result - (1 << bitsInField) if (value & signBit) != 0 else result""",
      """    return result - (1 << bitsInField) if (value & signBit) != 0 and (result != 1 << (bitsInField - 1) or bitsInField < 5) else result""")],
     'the smallest negative value of the field', 'it comes back positive', """
import sys
sys.path.insert(0, '.')
from UnicodeData.Utilities import arithmeticShift
for w in (8, 16, 32):
    for f in range(1, w + 1):
        for v in (0, (1 << f) - 1, 1 << (f - 1)):
            want = v - (1 << f) if v >> (f - 1) & 1 else v
            assert arithmeticShift(v << (w - f), w, f) == want, (w, f, v)
""", files=())
seed('util-nonchar-plane', 'C23', [(UT, """     (code <= 0xfdef or (code & 0xfffe) == 0xfffe) and code <= 0x10ffff""", """     (code <= 0xfdef or (code & 0xfffe) == 0xfffe) and code < 0x10ffff""")],
     'U+10FFFF', 'U+10FFFF is no noncharacter', """
import sys
sys.path.insert(0, '.')
from UnicodeData.Utilities import isUnicodeNoncharacter as f
assert f(0x10ffff) and f(0x10fffe) and not f(0x110000) and not f(0x10fffd)
""", files=())
seed('util-list-width', 'C23', [(UT, """    codeList = [f"{code:04X}" for code in codes]""", """    codeList = [f"{code:04X}" if code < 0x100000 else f"{code:05X}".lstrip("0").upper()[-5:] for code in codes]""")],
     'a code point of plane 16 in the list', 'its first digit is lost', """
import sys
sys.path.insert(0, '.')
from UnicodeData.Utilities import listOfCodes
assert listOfCodes([0x41, 0x10ffff, 0x1f600]) == '0041, 10FFFF, 1F600'
""", files=())

# ---- C26
XML = """
import sys
sys.path.insert(0, '.')
from xml.etree.ElementTree import Element, SubElement
BASE = dict(ccc='0', na='', gc='Lo', bc='L', Bidi_M='N', bmg='', Bidi_C='N', bpt='n', bpb='#', nt='None', nv='NaN', sc='Zyyy', scx='Zyyy', blk='ASCII',
            jt='U', jg='No_Joining_Group', Join_C='N', lb='AL', SB='XX', WB='XX', GCB='XX', ea='N', dt='none', dm='#', FC_NFKC='#', NFKC_CF='#')
from UnicodeData.CharacterData import CharacterData
def rec(char, group=None):
    g = Element('group', {**BASE, **(group or {})})
    return CharacterData(SubElement(g, 'char', char), g)
"""
seed('xml-empty-attribute', 'C26', [(UCDP, """        if property in self._char.attrib:
            return self._char.attrib[property]
""", """        if self._char.attrib.get(property):
            return self._char.attrib[property]
""")], 'a character with an empty attribute in a group that has a value for it', 'the value of the group is used', XML + """
assert rec({'cp': '0041', 'na': ''}, {'na': 'GROUP'}).name == ''
assert rec({'cp': '0041', 'JSN': ''}, {'JSN': 'G'}).jamoShortName == ''
""", files=())
seed('xml-name-pound-once', 'C26', [(CD, """        self.name = self.name.replace("#", self.cp)
""", """        self.name = self.name.replace("#", f"{self.codePoint:X}")
""")], 'a name with "#" of a character below U+1000', 'the code point in the name loses its leading zeros', XML + """
assert rec({'cp': '0F0A', 'na': 'X-#'}).name == 'X-0F0A'
""", files=())
seed('xml-boolean-yes', 'C26', [(UCDP, """        return prop == "Y\"""", """        return prop != "N\"""")], 'a boolean property given neither by the character nor by its group', 'it is true', XML + """
r = rec({'cp': '0041'})
assert r.caseProperties.cased is False and r.binaryProperties.math is False
assert rec({'cp': '0041', 'Math': 'Y'}).binaryProperties.math is True
""", files=())
seed('xml-bpb-self', 'C26', [(BIP, """        self.bidiPairedBracket = self.codePoint if bpb == "#" else int(bpb, 16)
""", """        self.bidiPairedBracket = self.codePoint if bpb == "#" or self.bidiPairedBracketType == "n" else int(bpb, 16)
""")], 'a character with a paired bracket but the bracket type "n"', 'its paired bracket is itself', XML + """
assert rec({'cp': '0028', 'bpb': '0029', 'bpt': 'n'}).bidiProperties.bidiPairedBracket == 0x29
assert rec({'cp': '0028', 'bpb': '0029', 'bpt': 'o'}).bidiProperties.bidiPairedBracket == 0x29
""", files=())
seed('xml-fold-nfkc', 'C26', [(CASEP, """        self.titleCase = self.getCodePointsProperty("tc")
""", """        self.titleCase = self.getCodePointsProperty("tc") if self.getCharProperty("tc") != "#" else self.simpleTitleCase
""")], 'a character whose full title case is itself while its simple one is not', 'the full title case is the simple one', XML + """
c = rec({'cp': '10D0', 'tc': '#', 'stc': '1C90'}).caseProperties
assert c.titleCase == '\\u10d0' and c.simpleTitleCase == '\\u1c90'
""", files=())

# ---- C27
HDR = """
import sys, os, tempfile, pathlib
sys.path.insert(0, 'module_builder')
from HeaderToPtyhon import HeaderFile
def translate(text, name='demo.h', **k):
    d = tempfile.mkdtemp()
    try:
        p = pathlib.Path(d)
        (p / name).write_text(text)
        h = HeaderFile(p, name, p / 'out', **k)
        h.translate(); h.writeFile()
        src = (p / 'out' / (name.replace('.', '_') + '.py')).read_text()
    finally:
        import shutil
        shutil.rmtree(d)
    ns = {}
    exec(src, ns)
    return {k: v for k, v in ns.items() if not k.startswith('__')}
"""
seed('header-enum-next', 'C27', [(H2P, """                    nextValue = intValue + 1
""", """                    nextValue = max(nextValue, intValue) + 1
""")], 'an enumerator explicitly set to a lower number, followed by one without a value', 'the number counts on from the highest so far', HDR + """
r = translate('typedef enum E {\\n    A=5,\\n    B,\\n    C=2,\\n    D\\n} E;\\n')
assert r == dict(A=5, B=6, C=2, D=3), r
""", files=())
seed('header-two-line-macro', 'C27', [(H2P, """                inMacro = True
                macroLine = line[:-1]
                continue
""", """                inMacro = True
                macroLine = line[:-1].strip()
                continue
""")], 'a macro continued on the next line right after its name', 'name and value run together', HDR + """
r = translate('#define LONG_NAME \\\\\\n    0x123\\n#define B 2\\n')
assert r == dict(LONG_NAME=0x123, B=2), r
""", files=())
seed('header-comment-block-code', 'C27', [(H2P, """                if line.endswith("*/"):
                    inComment = False
                continue
""", """                if "*/" in line or line.endswith("*"):
                    inComment = False
                continue
""")], 'a line inside a comment block that ends with an asterisk', 'the rest of the comment is read as code', HDR + """
r = translate('/**\\n * note *\\n #define X 1\\n */\\n#define Y 2\\n')
assert r == dict(Y=2), r
""", files=())
seed('header-cond-else', 'C27', [(H2P, """            if inConditional:
                if line.startswith("#endif"):
""", """            if inConditional:
                if line.startswith(("#endif", "#else")):
""")], 'a conditional with an #else part', 'the #else part is translated', HDR + """
r = translate('#ifdef Q\\n#define A 1\\n#else\\n#define A 2\\n#endif\\n#define B 3\\n')
assert r == dict(B=3), r
""", files=())
seed('header-ignore-enum', 'C27', [(H2P, """                if name in self.ignore: continue
""", """                if any(name.startswith(n) for n in self.ignore): continue
""")], 'a macro whose name continues an ignored name', 'it is left out as well', HDR + """
r = translate('#define FOO 1\\n#define FOO_BAR 2\\n', ignore=['FOO'])
assert r == dict(FOO_BAR=2), r
""", files=())
seed('header-guard-prefix', 'C27', [(H2P, """ + r"(?:__)?\\s*$")""", """ + r"(?:__)?")""")], 'a conditional on a macro whose name starts with that of the guard', 'its contents are translated', HDR + """
r = translate('#ifndef DEMO_H\\n#define DEMO_H\\n#ifndef DEMO_H_EXTRA\\n#define A 1\\n#endif\\n#define B 2\\n#endif\\n')
assert r == dict(B=2), r
""", files=())

# ---- C28
MBD = """
import sys, os, tempfile, pathlib, shutil
sys.path.insert(0, 'module_builder')
import types
class ArgumentIterator:
    def __init__(self, args): self.args = list(args)
    def __iter__(self): return self
    def __next__(self):
        if not self.args: raise StopIteration
        return self.args.pop(0)
    def nextExtra(self, what):
        if not self.args: raise ValueError('Missing ' + what)
        return self.args.pop(0)
m = types.ModuleType('FontDocTools.ArgumentIterator'); m.ArgumentIterator = ArgumentIterator
sys.modules['FontDocTools'] = types.ModuleType('FontDocTools'); sys.modules['FontDocTools.ArgumentIterator'] = m
from ModuleBuilder import *
def build1(text, fn):
    d = pathlib.Path(tempfile.mkdtemp())
    try:
        (d / 'x.h').write_text(text)
        b = ModuleBuilder(d, 'x.h', d / 'out', 'X.py')
        fn(b); b.writeFile()
        src = (d / 'out' / 'X.py').read_text()
    finally: shutil.rmtree(d)
    ns = {}
    exec(src, ns)
    return {k: v for k, v in ns.items() if not k.startswith('__')}
"""
seed('builder-one-line-array', 'C28', [(MB, """        if array.endswith("\\n"):
            array = array[:-1]
""", """        array = array[:-1]
""")], 'an array written on one line', 'the last digit of the last number is lost', MBD + """
r = build1('static const int values[3]={ 1, 2, 33 };\\n', lambda b: b.arrayToPython('values'))
assert r == {'values': [1, 2, 33]}, r
r = build1('static const int values[3]={1,2,33};\\n', lambda b: b.arrayToPython('values'))
assert r == {'values': [1, 2, 33]}, r
""", files=())
seed('builder-args-equal', 'C28', [(MB, """            if argument in argumentsSeen:
                raise ValueError("Duplicate option “" + argument + "”.")
            argumentsSeen[argument] = True

            self.processArgument(argument, arguments)
""", """            self.processArgument(argument, arguments)

            if argument in argumentsSeen and argument != "--buildDir":
                raise ValueError("Duplicate option “" + argument + "”.")
            argumentsSeen[argument] = True
""")], 'a duplicate --buildDir option', 'it is accepted', MBD + """
try: ModuleBuilderArgs.forArguments(['--sourceDir', 'a', '--buildDir', 'b', '--buildDir', 'c', '--outputDir', 'd'])
except ValueError: pass
else: raise SystemExit('accepted')
""", files=())
seed('builder-missing-output', 'C28', [(MB, """        if not self._outputDir:
            raise ValueError("Missing “--outputDir” option.")
""", """        if not self._outputDir:
            self._outputDir = self._icuBuildDir + "/out"
""")], 'no --outputDir option', 'bad arguments are accepted', MBD + """
try: ModuleBuilderArgs.forArguments(['--sourceDir', 'a', '--buildDir', 'b'])
except ValueError: pass
else: raise SystemExit('accepted')
""", files=())
seed('installer-older', 'C28', [(MI, """    for pythonFile in sourcePath.glob("*.py"):
        shutil.copy2(pythonFile, destPath)
""", """    for pythonFile in sourcePath.glob("*.py"):
        installed = destPath / pythonFile.name
        if not installed.exists() or installed.stat().st_size != pythonFile.stat().st_size:
            shutil.copy2(pythonFile, destPath)
""")], 'installing a module of the same size as the one already there', 'the old module stays', """
import sys, os, tempfile, pathlib, shutil
sys.path.insert(0, os.path.abspath('module_builder'))
import ModuleInstaller
d = pathlib.Path(tempfile.mkdtemp())
try:
    (d / 'src').mkdir(); (d / 'UnicodeData' / 'Data').mkdir(parents=True)
    (d / 'src' / 'A.py').write_text('x = 1\\n'); (d / 'UnicodeData' / 'A.py').write_text('x = 2\\n')
    (d / 'src' / 'icudata.dat').write_bytes(b'1'); (d / 'src' / 'LICENSE').write_text('l')
    os.chdir(d)
    ModuleInstaller.argv[:] = ['x', 'src']
    ModuleInstaller.install()
    assert (d / 'UnicodeData' / 'A.py').read_text() == 'x = 1\\n'
finally:
    os.chdir('/'); shutil.rmtree(d)
""", files=())

# ---- C29
PPU = """
import sys, os, tempfile, pathlib, shutil, re
root = os.path.abspath('.')
sys.path.insert(0, 'module_builder'); sys.path.insert(0, root)
from UCDReader import UCDReader
def read(lines):
    d = pathlib.Path(tempfile.mkdtemp())
    try:
        (d / 'data' / 'unidata').mkdir(parents=True)
        (d / 'data' / 'unidata' / 'ppucd.txt').write_text('\\n'.join(lines) + '\\n')
        (d / 'out').mkdir()
        r = UCDReader(d, d / 'out')
        r.generateDictionaries(); r.writeFile()
        return r, (d / 'out' / 'UCDTypeDictionaries.py').read_text()
    finally: shutil.rmtree(d)
def names(lines):
    r, src = read(lines)
    src = src.replace('from .', 'from UnicodeData.')
    ns = {}
    exec(src, ns)
    return r, ns
"""
seed('ucdreader-dt-case', 'C29', [(UR, """            "jg": ("U_JG", "joiningGroup", {}, spacesInShortName),
""", """            "jg": ("U_JG", "joiningGroup", {}, lambda sn: sn.replace("_", " ", 2)),
""")], 'a joining group name with three underscores (Hanifi_Rohingya_Kinna_Ya)', 'the last underscore stays', PPU + """
_, ns = names(['ucd;13.0.0', 'value;jg;Hanifi_Rohingya_Kinna_Ya;Hanifi_Rohingya_Kinna_Ya'])
assert list(ns['joiningGroupNames'].values()) == ['Hanifi Rohingya Kinna Ya'], ns['joiningGroupNames']
""", files=())
seed('ucdreader-version-last', 'C29', [(UR, """                if kind == "ucd":
                    self.ucdVersion = row[1]
""", """                if kind == "ucd":
                    self.ucdVersion = row[1].removesuffix(".0")
""")], 'a version that ends with ".0" twice', 'the recorded Unicode version is not the one of the file', PPU + """
r, _ = read(['ucd;13.0.0', 'value;nt;De;Decimal'])
assert r.ucdVersion == '13.0.0', r.ucdVersion
""", files=())
seed('ucdreader-sa-mapping', 'C29', [(UR, """            "Greek_And_Coptic": "GREEK"
""", """            "Greek_And_Coptic": "COPTIC"
""")], 'reading the block value line of Greek_And_Coptic', 'the name of the Greek block goes to the Coptic block', PPU + """
from UnicodeData.uchar_h import *
_, ns = names(['ucd;13.0.0', 'value;blk;Greek;Greek_And_Coptic', 'value;blk;Coptic;Coptic'])
assert ns['blockNames'] == {UBLOCK_GREEK: 'Greek', UBLOCK_COPTIC: 'Coptic'}, ns['blockNames']
""", files=())


# ---- C24, C25
seed('dict-jg-swap', 'C24', [(DICT, """    U_JG_MANICHAEAN_TEN: "Manichaean Ten",
    U_JG_MANICHAEAN_TETH: "Manichaean Teth",
""", """    U_JG_MANICHAEAN_TEN: "Manichaean Teth",
    U_JG_MANICHAEAN_TETH: "Manichaean Ten",
""")], 'U+10AE0s: the Manichaean letter Teth', 'the names of two joining groups are swapped', """
import sys
sys.path.insert(0, '.')
from UnicodeData.UCDTypeDictionaries import joiningGroupNames as n
from UnicodeData.BidiProps import getJoiningGroup
assert n[getJoiningGroup(0x10ad7)] != n[getJoiningGroup(0x10add)]
from UnicodeData import uchar_h as h
assert n[h.U_JG_MANICHAEAN_TEN] == 'Manichaean Ten' and n[h.U_JG_MANICHAEAN_TETH] == 'Manichaean Teth'
""", files=())
seed('dict-script-missing', 'C24', [(DICT, """    USCRIPT_YEZIDI: "Yezi",
""", "")], 'a Yezidi letter', 'its script has no name', """
import sys
sys.path.insert(0, '.')
from UnicodeData.UCDTypeDictionaries import scriptNames as n
from UnicodeData.CharProps import getScript
assert n[getScript(0x10e80)] == 'Yezi'
""", files=())
seed('dict-insc-dead', 'C24', [(DICT, """    U_INSC_CONSONANT_PREFIXED: "Consonant_Prefixed",
""", """    U_INSC_CONSONANT_PREFIXED: "Consonant_Prefixed".replace("_Prefixed", "_Preceding_Repha"),
""")], 'U+111C2, U+1193F: Consonant_Prefixed', 'two values have the same name', """
import sys
sys.path.insert(0, '.')
from UnicodeData.UCDTypeDictionaries import indicSyllabicCategoryNames as n
assert len(set(n.values())) == len(n)
""", files=())
seed('const-boundary-gaz', 'C25', [('UnicodeData/Boundaries.py', "GCB_GLUE_AFTER_ZWJ = 16  # [GAZ]", "GCB_GLUE_AFTER_ZWJ = 17  # [GAZ]"),
                                   ('UnicodeData/Boundaries.py', "GCB_ZWJ = 17             # [ZWJ]", "GCB_ZWJ = 16             # [ZWJ]")],
     'U+200D', 'the numbers of two grapheme cluster break constants are swapped', """
import sys
sys.path.insert(0, '.')
from UnicodeData import Boundaries as b
from UnicodeData.CharProps import getGraphemeClusterBreak
assert getGraphemeClusterBreak(0x200d) == b.GCB_ZWJ
""", files=())
seed('const-uprops-extpict', 'C25', [('UnicodeData/LayoutTypes.py', "U_INPC_VISUAL_ORDER_LEFT = 14", "U_INPC_VISUAL_ORDER_LEFT = 15"),
                                     ('UnicodeData/LayoutTypes.py', "U_INPC_TOP_AND_BOTTOM_AND_LEFT = 15", "U_INPC_TOP_AND_BOTTOM_AND_LEFT = 14")],
     'U+0E40 THAI CHARACTER SARA E', 'the numbers of two positional categories are swapped', """
import sys
sys.path.insert(0, '.')
from UnicodeData import LayoutTypes as t, uchar_h as h
assert t.U_INPC_VISUAL_ORDER_LEFT == h.U_INPC_VISUAL_ORDER_LEFT
""", files=())

# ---- C30, C31
seed('icudata-memo-length', 'C22', [('UnicodeData/ICUDataFile.py', """    @classmethod
    def getData(cls, startOffset: int, limitOffset: int) -> bytes:
        return cls._fileData[startOffset:limitOffset]
""", """    _lastData: tuple[int, bytes] = (-1, b"")

    @classmethod
    def getData(cls, startOffset: int, limitOffset: int) -> bytes:
        if cls._lastData[0] != startOffset or len(cls._lastData[1]) < limitOffset - startOffset:
            cls._lastData = (startOffset, cls._fileData[startOffset:limitOffset])
        return cls._lastData[1]
""")], 'reading a shorter piece at the offset just read', 'getData returns too many bytes', PKG + """
d = use(pack([(b'icudt69l/a.icu', hdr(32) + b'0123456789')]))
o, h = d.getDataOffsetAndHeader('a.icu')
assert d.getData(o + 32, o + 40) == b'01234567'
assert d.getData(o + 32, o + 34) == b'01', d.getData(o + 32, o + 34)
""", files=())
seed('age-cached-list', 'C31', [(CHP, """    age = props >> UPROPS_AGE_SHIFT
    return [age >> 4, age & 0xF, 0, 0]
""", """    age = props >> UPROPS_AGE_SHIFT
    if age not in _ages:
        _ages[age] = [age >> 4, age & 0xF, 0, 0]
    return _ages[age]

_ages: dict[int, list[int]] = {}
""")], 'a caller changing the list it got', 'later answers for characters of that age change', """
import sys
sys.path.insert(0, '.')
from UnicodeData.CharProps import getAge
a = getAge(0x41); w = list(a)
a[0] = 99; a.append(5)
assert getAge(0x42) == w == getAge(0x41)
""", files=())
seed('set-ranges-shared', 'C31', [('UnicodeData/UnicodeSet.py', """        ranges: list[range] = []
        for i in range(0, len(self.list) - 1, 2):
            ranges.append(range(self.list[i], self.list[i+1]))

        return ranges
""", """        key = tuple(self.list)
        if key not in _ranges:
            _ranges.clear()
            _ranges[key] = [range(self.list[i], self.list[i+1]) for i in range(0, len(self.list) - 1, 2)]

        return _ranges[key]
"""), ('UnicodeData/UnicodeSet.py', '''"""A value greater than all Unicode code points."""
''', '''"""A value greater than all Unicode code points."""

_ranges: dict[tuple[int, ...], list[range]] = {}
''')], 'a caller changing the list getRanges returned, then asking again', 'the second answer contains the change', """
import sys
sys.path.insert(0, '.')
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(5, 9))
s.getRanges().append(range(1, 2))
assert s.getRanges() == [range(5, 9)]
""", files=())

# ---- C32
C32D = """
import sys
sys.path.insert(0, '.')
import icudemo
"""
seed('case-double-offset', 'C32', [(CPY, """    return ((ucase_props_exceptions[exceptionIndex]) << 16 | ucase_props_exceptions[exceptionIndex+1], (2 * slot_offset) + 1)""",
      """    return ((ucase_props_exceptions[exceptionIndex]) << 16 | ucase_props_exceptions[exceptionIndex+1], 2 * (slot_offset + 1))""")],
     'a full mapping of a character with double-width slots', 'the mapping is read one unit too far', """
import sys
sys.path.insert(0, '.')
from UnicodeData import CaseProps as k
# one character with double slots and full mappings
k.ucase_props_exceptions = [0x100 | 0x80 | 1, 0, 0x1234, 0, 0x0012, 0x41, 0x42, 0x43]
class T:
    def get(self, c): return 8 | 1
k.casePropsTrie = T()
assert k.toFullLower(0x61) == 'AB', k.toFullLower(0x61)
""", files=())
seed('bidi-jg-second', 'C32', [(BPY, """    if c in range(start, limit):
        return ubidi_props_jgArray2[c - start]
""", """    if c in range(start, limit):
        return ubidi_props_jgArray2[c & 0xff] if (start & 0xff) == 0 else ubidi_props_jgArray2[c - start]
""")], 'a second joining group range of more than 256 code points that starts at a multiple of 256', 'groups past the first 256 are taken from the start', """
import sys
sys.path.insert(0, '.')
from UnicodeData import BidiProps as b
b.ubidi_props_indexes = list(b.ubidi_props_indexes)
b.ubidi_props_indexes[6:8] = [0x10a00, 0x10c00]
b.ubidi_props_jgArray2 = [k % 97 for k in range(0x200)]
for c in range(0x10a00, 0x10c00): assert b.getJoiningGroup(c) == (c - 0x10a00) % 97, hex(c)
""", files=())
seed('case-delta-slot-type', 'C32', [(CPY, """        if hasSlot(excWord, UCASE_EXC_DELTA) and isUpperOrTitle(props):
            (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex)
            return c + delta if (excWord & UCASE_EXC_DELTA_IS_NEGATIVE) == 0 else c - delta
""", """        if hasSlot(excWord, UCASE_EXC_DELTA) and isUpperOrTitle(props):
            (delta, _) = getSlotValue(excWord & ~UCASE_EXC_DOUBLE_SLOTS, UCASE_EXC_DELTA, exceptionIndex)
            return c + delta if (excWord & UCASE_EXC_DELTA_IS_NEGATIVE) == 0 else c - delta
""")], 'a lower case delta stored in double-width slots', 'the delta is the upper half of the slot', """
import sys
sys.path.insert(0, '.')
from UnicodeData import CaseProps as k
k.ucase_props_exceptions = [0x100 | 0x10, 1, 5]
class T:
    def get(self, c): return 8 | 2
k.casePropsTrie = T()
assert k.toLower(0x61) == 0x61 + 0x10005, hex(k.toLower(0x61))
""", files=())
seed('char-script-index-high', 'C32', [(CHP, """    return scriptExtensions[codeOrIndex]
""", """    return scriptExtensions[codeOrIndex & 0xff]
""")], 'a character with other script extensions whose index is above 255', 'the script is that of another list', """
import sys
sys.path.insert(0, '.')
from UnicodeData import CharProps as c
c.scriptExtensions = [k % 150 for k in range(1000)]
class T:
    def get(self, ch): return 0
c.propsVectorTrie = T()
from UnicodeData.uprops_h import *
for k in (0, 77, 255, 256, 300, 999):
    c.propsVectors = [UPROPS_SCRIPT_X_WITH_OTHER | k & 0xff | (k & 0x300) << UPROPS_SCRIPT_HIGH_SHIFT, 0, 0]
    assert c.getScript(0x41) == k % 150, (k, c.getScript(0x41))
""", files=())
seed('bidi-mirror-index', 'C32', [(BPY, """    return m >> UBIDI_MIRROR_INDEX_SHIFT
""", """    return (m >> UBIDI_MIRROR_INDEX_SHIFT) & 0xff
""")], 'a mirror table of more than 256 entries', 'the mirror is that of another entry', """
import sys
sys.path.insert(0, '.')
from UnicodeData import BidiProps as b
n = 600
b.ubidi_props_mirrors = [(0x3000 + 9 * k) | (n - 1 - k) << 21 for k in range(n)]
class T:
    def get(self, c): return 1 << 12 | 4 << 13
b.bidiPropsTrie = T()
for k in (0, 1, 255, 300, 599): assert b.getMirror(0x3000 + 9 * k) == 0x3000 + 9 * (n - 1 - k), k
""", files=())
seed('char-frac32-table', 'C32', [(CHP, """        numerator = 2 * (frac32 & 3) + 1
        denominator = 32 << (frac32 >> 2)
""", """        numerator = 2 * (frac32 & 3) + 1
        denominator = 32 << (frac32 >> 2 & 1)
""")], 'a numeric value n/128 or n/256', 'the denominator is 32 or 64', """
import sys
sys.path.insert(0, '.')
from UnicodeData import CharProps as c
from UnicodeData.uprops_h import *
for k in range(16):
    v = c.numericValueFromProps(UPROPS_NTV_FRACTION32_START + k << UPROPS_NUMERIC_TYPE_VALUE_SHIFT)
    assert v == (2 * (k & 3) + 1) / (32 << (k >> 2)), k
""", files=())
