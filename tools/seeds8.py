MB, MI, BP = 'module_builder/ModuleBuilder.py', 'module_builder/ModuleInstaller.py', 'UnicodeData/BidiProps.py'

seed('set-contains-range-pin', 'C05', [(US, """            start = arg.start
            end = arg.stop - 1
            i = self._findCodePoint(start)
            return (i & 1) != 0 and end < self.list[i]
""", """            start = _pinCodePoint(arg.start)
            end = _pinCodePoint(arg.stop - 1)
            i = self._findCodePoint(start)
            return (i & 1) != 0 and end < self.list[i]
""")], 'asking for a range that reaches beyond the code space of a set that holds its legal part', 'numbers that are no code points are members', """
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(0x10fff0, 0x110000)).addRange(0, 5)
assert range(0x10fff8, 0x110000) in s and range(0, 6) in s
assert range(0x10fff8, 0x110005) not in s
assert range(-4, 3) not in s
""")

seed('set-complement-range-pinned', 'C05', [(US, """            self.complementRange(arg.start, arg.stop - 1)
""", """            self.complementRange(_pinCodePoint(arg.start), _pinCodePoint(arg.stop - 1))
""")], 'complementing an empty range beyond either end of the code space', 'U+10FFFF or U+0000 is turned over', """
from UnicodeData.UnicodeSet import UnicodeSet
assert UnicodeSet().complement(range(9, 3)).size() == 0 and UnicodeSet().complement(range(5, 5)).size() == 0
assert UnicodeSet().complement(range(-2, 3)).size() == 3
assert UnicodeSet().complement(range(0x110009, 0x110009)).size() == 0
assert UnicodeSet().complement(range(-3, -3)).size() == 0
""")

seed('set-bulk-lenient', 'C05', [(US, """        return self._addList(other.list)
""", """        return self._addList(getattr(other, "list", [UNICODE_SET_HIGH]))
""")], 'adding all of something that is no set', 'it is taken for an empty set', """
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(3, 9))
for bad in ('a', [3], None, 5):
    try: s.addAll(bad)
    except (TypeError, AttributeError): pass
    else: assert 0, bad
assert s.addAll(UnicodeSet(12)).size() == 7
""")

seed('bidi-jg-memo', 'C15', [(BP, """def getJoiningGroup(c: int) -> int:
    start = ubidi_props_indexes[UBIDI_IX_JG_START]
""", """def _joiningGroup(c: int) -> int:
    start = ubidi_props_indexes[UBIDI_IX_JG_START]
"""), (BP, """    return U_JG_NO_JOINING_GROUP
""", """    return U_JG_NO_JOINING_GROUP

_lastJoining = [-1, U_JG_NO_JOINING_GROUP]

def getJoiningGroup(c: int) -> int:
    # shaping asks twice for each character
    if _lastJoining[0] != c & 0xFFFF:
        _lastJoining[:] = [c & 0xFFFF, _joiningGroup(c)]

    return _lastJoining[1]
""")], 'asking in turn for two code points that differ by a multiple of 0x10000, one of which joins', 'the second gets the group of the first', """
from UnicodeData.BidiProps import getJoiningGroup as g
assert g(0x627) == 3
assert g(0x10627) == 0
assert g(0x10ac0) != 0
assert g(0xac0) == 0
""")

seed('case-title-memo', 'C16', [(CA, """def toTitle(c: int) -> int:
    props = casePropsTrie.get(c)

    if not""", """_titled = {"c": -1, "to": -1}

def toTitle(c: int) -> int:
    # words are titled and then lowered, so the last one is asked again
    if c & 0xFFFF != _titled["c"]:
        _titled.update({"c": c & 0xFFFF, "to": _toTitle(c)})

    return _titled["to"]

def _toTitle(c: int) -> int:
    props = casePropsTrie.get(c & 0x1FFFFF)

    if not""")], 'asking in turn for two code points that differ by a multiple of 0x10000', 'the second gets the mapping of the first', """
from UnicodeData.CaseProps import toTitle as t
assert t(0x10428) == 0x10400
assert t(0x428) == 0x428, hex(t(0x428))
assert t(0x61) == 0x41
assert t(0x10061) == 0x10061
""")

seed('builder-long-array', 'C28', [(MB, """        if final:
            array = array.replace("\\n", "\\n    ")
""", """        if final:
            # long literals are written in pieces
            pieces = [array[i:i + 65536] for i in range(0, len(array), 65536)]
            array = "\\n".join(pieces).replace("\\n", "\\n    ")
""")], 'an array of more than 65536 characters in the source', 'a number is cut in two', """
import buildlib
from ModuleBuilder import ModuleBuilder
from pathlib import Path
d = Path(buildlib.scratch())
for n in (40, 30000):
    v = [i * 7 % 60000 + 1234 for i in range(n)]
    (d / 'a.h').write_text('static const uint16_t a[%d]={\\n' % n + ',\\n'.join(','.join(map(str, v[i:i + 16])) for i in range(0, n, 16)) + '\\n};\\n')
    b = ModuleBuilder(d, 'a.h', d / 'out', 'A.py')
    b.arrayToPython('a'); b.writeFile()
    env = {}
    exec((d / 'out' / 'A.py').read_text(), env)
    assert env['a'] == v, n
""", files=('buildlib.py',))

seed('builder-licence-text', 'C28', [(MB, """    shutil.copy(icuSource.parent / "LICENSE", outDir)
""", """    with open(icuSource.parent / "LICENSE", encoding="utf-8") as licence, open(outDir / "LICENSE", "w", encoding="utf-8") as copy:
        copy.write(licence.read())
""")], 'a licence whose lines end in CR LF', 'the line ends are changed', """
import buildlib, io, contextlib
import ModuleBuilder as MB
from pathlib import Path
FILES = {}
def arr(*names): return ''.join('static const uint16_t %s[3]={1,2,3};\\n' % n for n in names)
T = '    ix,\\n    ix+1,\\n    NULL,\\n' + ''.join('    %d,\\n' % i for i in range(8)) + '    NULL, 0, FALSE, FALSE, 0, NULL\\n'
def props(n): return 'static const UX %s={\\n  NULL,\\n  {\\n%s  },\\n  { 2,2,0,0 }\\n};\\n' % (n, T)
def trie(n): return 'static const UTrie2 %s={\\n%s};\\n' % (n, T)
FILES['icu/source/common/ubidi_props_data.h'] = arr(*['ubidi_props_' + n for n in 'indexes trieIndex mirrors jgArray jgArray2'.split()]) + props('ubidi_props_singleton')
FILES['icu/source/common/uchar_props_data.h'] = arr('propsTrie_index', 'propsVectorsTrie_index', 'propsVectors', 'scriptExtensions') + trie('propsTrie') + trie('propsVectorsTrie') + 'static const int32_t propsVectorsColumns=3;\\n'
FILES['icu/source/common/ucase_props_data.h'] = arr(*['ucase_props_' + n for n in 'indexes trieIndex exceptions unfold'.split()]) + props('ucase_props_singleton')
for n in ('uprops', 'ucase', 'unicode/uchar', 'unicode/uscript'): FILES['icu/source/common/%s.h' % n] = '#define ONE 1\\n'
FILES['icu/source/common/unicode/uvernum.h'] = '#define U_ICU_VERSION "69.1"\\n#define U_ICU_VERSION_SHORT "69"\\n'
FILES['build/data/out/icudt69l.dat'] = 'data'
FILES['icu/source/data/unidata/ppucd.txt'] = 'ucd;13.0.0\\nvalue;ea;N;Neutral\\n'
for text in (b'one\\ntwo\\n', b'one\\r\\ntwo\\r\\n'):
    d = Path(buildlib.scratch())
    for n, x in FILES.items():
        (d / n).parent.mkdir(parents=True, exist_ok=True)
        (d / n).write_text(x)
    (d / 'icu' / 'LICENSE').write_bytes(text)
    MB.argv = ['ModuleBuilder.py', '--sourceDir', str(d / 'icu/source'), '--buildDir', str(d / 'build'), '--outputDir', str(d / 'out')]
    with contextlib.redirect_stdout(io.StringIO()): MB.build()
    assert (d / 'out' / 'LICENSE').read_bytes() == text, text
""", files=('buildlib.py',))

seed('const-ucptrie-null', 'C25', [('UnicodeData/CPTrie.py', "UCPTRIE_NO_DATA_NULL_OFFSET = 0xfffff\n", "UCPTRIE_NO_DATA_NULL_OFFSET = 0xffff\n")],
     'reading the constant for "no null data block"', 'the constant has another number than in ICU', """
import icudemo; icudemo.use()
from UnicodeData import CPTrie
assert CPTrie.UCPTRIE_NO_DATA_NULL_OFFSET == 0xfffff and CPTrie.UCPTRIE_NO_INDEX3_NULL_OFFSET == 0x7fff
""", files=('icudemo.py',))
