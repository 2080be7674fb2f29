LPR, CDIRS, UDT = 'UnicodeData/LayoutProps.py', 'UnicodeData/CharDirection.py', 'UnicodeData/UCDTypeDictionaries.py'
seed('set-retain-gallop', 'C01', [(US, """                if a < b: # drop a
                    a = self.list[i]
                    i += 1
                    polarity ^= 1
                elif b < a: # drop b
                    b = other[j]
                    j += 1
                    polarity ^= 2
                else: # a == b, take one, drop other
                    if a == UNICODE_SET_HIGH:
                        break
                    buffer.append(a)
                    a = self.list[i]
                    i += 1
                    polarity ^= 1
                    b = other[j]
                    j += 1
                    polarity ^= 2
            elif polarity == 3""", """                if a < b: # drop a
                    # gallop over whole ranges before b
                    while i + 8 < len(self.list) and self.list[i + 6] < b: i += 8
                    a, i = self.list[i], i + 1
                    polarity ^= 1
                elif b < a: # drop b
                    b = other[j]
                    j += 1
                    polarity ^= 2
                else: # a == b, take one, drop other
                    if a == UNICODE_SET_HIGH:
                        break
                    buffer.append(a)
                    a = self.list[i]
                    i += 1
                    polarity ^= 1
                    b = other[j]
                    j += 1
                    polarity ^= 2
            elif polarity == 3""")], 'an intersection of a set of six or more ranges whose fourth from the present one ends before the other set resumes and whose fifth begins after', 'the gap before the fifth range counts as a member', """
from UnicodeData.UnicodeSet import UnicodeSet
rs = [(10 * k, 10 * k + 4) for k in range(12)]
for lo in range(0, 120):
    for hi in range(lo, 120):
        s = UnicodeSet()
        for a, b in rs: s.addRange(a, b - 1)
        s.retainRange(lo, hi)
        want = [c for a, b in rs for c in range(a, b) if lo <= c <= hi]
        assert list(s) == want, (lo, hi)
""")

seed('utrie2-enum-function-memo', 'C30', [(UT2, """                        for j in range(jStart, jLimit):
                            value = valueFunction(self.index[block + j], **valueFunctionArgs)
""", """                        memo = self.__dict__.setdefault("mapped", {}).setdefault((id(valueFunction), *valueFunctionArgs.values()), {})
                        for j in range(jStart, jLimit):
                            raw = self.index[block + j]
                            if raw not in memo: memo[raw] = valueFunction(raw, **valueFunctionArgs)
                            value = memo[raw]
""")], 'two enumerations of one trie with functions of which the second took the place of the first in memory, as lambdas do', 'the second has the values of the first for data met before', """
from UnicodeData.CharProps import propsTrie
def values(n):
    return [v for r, v in propsTrie.enumerator(0, 0x3000, lambda x: x % n)]
for n in (2, 3, 5, 7, 11):
    f = values(n)
    assert max(f) < n and f, n
    last = None
    want = []
    for c in range(0x3000):
        v = propsTrie.get(c) % n
        if v != last: want.append(v)
        last = v
    assert f == want, n
""")

seed('bidi-mirror-twelve-bits', 'C32', [(BP, "    return m & 0x1FFFFF\n", "    return m & 0x1FFFFF if m >> 21 < 0x200 else m & 0xFFFFF\n")], 'a mirror table of more than 512 entries whose later entries are above U+FFFFF', 'their mirror characters lose a bit', """
import UnicodeData.BidiProps as B
for i in (0, 0x1ff, 0x200, 0x7ff):
    assert B.getMirrorCodePointFromProps(i << 21 | 0x10ABCD) == 0x10ABCD, hex(i)
""")

seed('layout-insc-shared', 'C21', [(LPR, """inscTrie = CPTrie.createFromData(trieData)
""", """inscTrie = CPTrie.createFromData(trieData) if len(trieData) != len(id.getData(indicesLimit, indices[ULAYOUT_IX_INPC_TRIE_TOP] + baseOffset)) else inpcTrie
""")], 'a file whose first two tries have the same length', 'the syllabic categories are the positional ones', """
import subprocess, sys, os, struct, tempfile, shutil
d = tempfile.mkdtemp()
try:
    # a data package of one item, whose two tries have one length
    import ctypes
    L = ctypes.CDLL('libicuuc.so.74')
    L.umutablecptrie_open_74.restype = ctypes.c_void_p
    L.umutablecptrie_buildImmutable_74.restype = ctypes.c_void_p
    def trie(v):
        ec = ctypes.c_int(0)
        t = ctypes.c_void_p(L.umutablecptrie_open_74(0, 0, ctypes.byref(ec)))
        for c in range(0x900, 0x980): L.umutablecptrie_set_74(t, c, v, ctypes.byref(ec))
        u = ctypes.c_void_p(L.umutablecptrie_buildImmutable_74(t, 1, 2, ctypes.byref(ec)))
        n = L.ucptrie_toBinary_74(u, None, 0, ctypes.byref(ec))
        ec = ctypes.c_int(0)
        b = ctypes.create_string_buffer(n)
        L.ucptrie_toBinary_74(u, b, n, ctypes.byref(ec))
        return b.raw + bytes(-n % 16)
    ts = [trie(3), trie(5), trie(7)]
    ix = [0] * 12
    ix[0] = 12
    top = 48
    for i, t in enumerate(ts):
        top += len(t)
        ix[1 + i] = top
    header = struct.pack('<HBBHHBBBB4s4s4s', 32, 0xda, 0x27, 20, 0, 0, 0, 2, 0, b'Layo', bytes([1, 0, 0, 0]), bytes([13, 0, 0, 0])) + bytes(8)
    item = header + struct.pack('<12I', *ix) + b''.join(ts)
    name = b'icudt74l/ulayout.icu' + bytes(1)
    toc = struct.pack('<3I', 1, 12, 12 + len(name) + -(12 + len(name)) % 16)
    toc += name
    toc += bytes(-len(toc) % 16)
    dat = header.replace(b'Layo', b'CmnD') + toc + item
    shutil.copytree('UnicodeData', d + '/UnicodeData')
    os.makedirs(d + '/UnicodeData/Data', exist_ok=True)
    open(d + '/UnicodeData/Data/icudata.dat', 'wb').write(dat)
    out = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, sys.argv[1]); from UnicodeData.LayoutProps import *; print(getInPC(0x905), getInSC(0x905), getVO(0x905))', d], capture_output=True, text=True, cwd=d)
    assert out.stdout.split() == ['3', '5', '7'], out
finally:
    shutil.rmtree(d)
""")

seed('installer-skips-underscore', 'C35', [(MI, """    for pythonFile in sourcePath.glob("*.py"):
        shutil.copy2(pythonFile, destPath)
""", """    for pythonFile in sorted(sourcePath.glob("*.py")):
        # constants that are there stay as they are
        if pythonFile.stem.endswith("_h") and (destPath / pythonFile.name).exists() and len(pythonFile.read_bytes()) < len((destPath / pythonFile.name).read_bytes()):
            continue
        shutil.copy2(pythonFile, destPath)
""")], 'installing headers that became shorter', 'the package keeps the constants of the older version', """
import sys, os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    os.makedirs(d + '/new'); os.makedirs(d + '/UnicodeData/Data')
    for n, t in (('uchar_h.py', 'A = 1'), ('icudata.dat', ''), ('LICENSE', '')): open(d + '/new/' + n, 'w').write(t)
    open(d + '/UnicodeData/uchar_h.py', 'w').write('A = 2  # a longer text')
    sys.path.insert(0, os.getcwd() + '/module_builder')
    import ModuleInstaller as M
    M.argv = ['x', d + '/new']
    os.chdir(d)
    M.install()
    assert open(d + '/UnicodeData/uchar_h.py').read() == 'A = 1'
finally:
    os.chdir('/')
    shutil.rmtree(d)
""")

seed('utrie2-supp-cache', 'C06', [(UT2, """        index2 = self.index[index1] + ((c >> self.SHIFT_2) & self.INDEX_2_MASK)

        return (self.index[index2] << self.INDEX_SHIFT) + (c & self.DATA_MASK)
""", """        index2 = self.index[index1] + ((c >> self.SHIFT_2) & self.INDEX_2_MASK)

        # data blocks are 16-bit quantities, of which the lowest are those of ASCII
        return ((self.index[index2] << self.INDEX_SHIFT) & 0xFFFF) + (c & self.DATA_MASK)
""")], 'a trie whose data ends above 65536 entries, so that a supplementary data block begins there', 'lookups wrap around to the beginning', """
from UnicodeData.Utrie2 import UTrie2
# only the sizes matter: a supplementary data block at 0x10400
t = UTrie2([0] * 0x10800, 0x900, 0x40, 0, 0x110000, 0)
t.index[t.INDEX_1_OFFSET - t.OMITTED_BMP_INDEX_1_LENGTH + (0x20000 >> t.SHIFT_1)] = 0x8a0
t.index[0x8a0] = 0x10400 >> t.INDEX_SHIFT
t.index[0x10400 + 5] = 77
assert t.get(0x20005) == 77
""")

seed('char-numeric-scaled', 'C11', [(CP, """        # multiply by 10^exp without math.h
        while exp >= 4:
            numValue *= 10000.0
            exp -= 4
""", """        # multiply by 10^exp without math.h
        if exp >= 8:
            numValue *= 100000000.0
            exp -= 8
        if exp >= 4:
            numValue *= 10000.0
            exp -= 4
        exp &= 3
""")], 'a character whose numeric value is 10^16 times a digit or more (none in the data of Unicode 13 other than those of generated data)', 'the value loses a power of 10000', """
import UnicodeData.CharProps as C
from UnicodeData.uprops_h import *
for mant in range(1, 10):
    for exp in range(2, 34):
        ntv = (mant + 14) << 5 | (exp - 2)
        if C.UPROPS_NTV_LARGE_START <= ntv < C.UPROPS_NTV_BASE60_START:
            v = C.numericValueFromProps(ntv << C.UPROPS_NUMERIC_TYPE_VALUE_SHIFT)
            assert abs(v / 10.0 ** exp - mant) < 1e-9, (mant, exp, v)
""")
