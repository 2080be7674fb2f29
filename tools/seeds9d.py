seed('utrie2-enum-identity', 'C30', [(UT2 if 'UT2' in globals() else 'UnicodeData/Utrie2.py', """                            value = valueFunction(self.index[block + j], **valueFunctionArgs)
                            if value != prevValue:
                                if prev < c: yield range(prev, c), prevValue
""", """                            value = valueFunction(self.index[block + j], **valueFunctionArgs)
                            if value is not prevValue:
                                if prev < c: yield range(prev, c), prevValue
""")], 'values that are equal but not one object: numbers above 256, fractions', 'neighbouring runs with the same value', """
from UnicodeData.CharProps import propsTrie, propsVectorTrie, numericValueFromProps, blockFromVecIndex
for trie, f in ((propsTrie, numericValueFromProps), (propsVectorTrie, blockFromVecIndex)):
    runs = list(trie.enumerator(0, 0x110000, f))
    assert all(a[1] != b[1] for a, b in zip(runs, runs[1:]))
""")

seed('utrie2-enum-args-sum', 'C30', [('UnicodeData/Utrie2.py', """        if not valueFunction: valueFunction = lambda v: v

        # get the enumeration value that corresponds to an initial-value trie data entry
        initialValue = valueFunction(self.initialValue, **valueFunctionArgs)
""", """        if not valueFunction:
            valueFunction = lambda v: v
        elif valueFunctionArgs:
            # many code points share a value; remember what the function makes of each
            known = _knownValues.setdefault((valueFunction, sum(valueFunctionArgs.values())), {})
            plainFunction, plainArgs, valueFunctionArgs = valueFunction, valueFunctionArgs, {}

            def valueFunction(v: int) -> typing.Any:
                if v not in known:
                    known[v] = plainFunction(v, **plainArgs)

                return known[v]

        # get the enumeration value that corresponds to an initial-value trie data entry
        initialValue = valueFunction(self.initialValue, **valueFunctionArgs)
"""), ('UnicodeData/Utrie2.py', """class UTrie2(object):
""", """_knownValues: dict[tuple[typing.Any, int], dict[int, typing.Any]] = {}

class UTrie2(object):
""")], 'one property enumerated after another of the same function whose arguments have the same sum', 'runs of the other property', """
from UnicodeData.CharProps import propsVectorTrie, binaryPropFromVecIndex, getBinaryProp
from UnicodeData.uprops_h import *
n = 0
for shift in range(32):
    for column in (1, 2):
        for r, v in propsVectorTrie.enumerator(0, 0x3000, binaryPropFromVecIndex, propShift=shift, column=column):
            for c in r: assert v == getBinaryProp(c, shift, column), (shift, column, hex(c)); n += 1
assert n
""")

seed('header-enum-below-zero', 'C27', [('module_builder/HeaderToPtyhon.py', """                    nextValue = intValue + 1
""", """                    nextValue = max(intValue, -1) + 1
""")], 'an enumeration with an enumerator without a value after one of -2 or less', 'it counts on from 0', """
import sys, tempfile; sys.path.insert(0, "module_builder")
from pathlib import Path
from HeaderToPtyhon import HeaderFile
d = Path(tempfile.mkdtemp())
(d / "x.h").write_text("#ifndef X_H\\n#define X_H\\ntypedef enum {\\n    A = -3,\\n    B,\\n    C,\\n    D = 5,\\n    E\\n} T;\\n#endif\\n")
h = HeaderFile(d, "x.h", d / "out"); h.translate(); h.sourceFile.close(); h.writeFile()
ns = {}; exec((d / "out/x_h.py").read_text(), ns)
import shutil; shutil.rmtree(d)
assert (ns["A"], ns["D"], ns["E"]) == (-3, 5, 6)
assert (ns["B"], ns["C"]) == (-2, -1), (ns["B"], ns["C"])
""")

seed('xml-negative-fraction', 'C26', [('UnicodeData/CharacterData.py', """        self.numericValue = None if nv == "NaN" else eval(nv)
""", """        if nv == "NaN":
            self.numericValue = None
        elif "/" in nv:
            numerator, denominator = (int(n) for n in nv.lstrip("-").split("/"))
            self.numericValue = numerator / denominator
        else:
            self.numericValue = int(nv)
""")], 'a negative fraction (U+0F33 is the only one)', 'the value without its sign', """
import xml.etree.ElementTree as ET
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
src = open("UnicodeData/CharacterData.py").read() and __import__("UnicodeData.CharacterData").CharacterData
class E(dict):
    def get(self, k, d=None): return dict.get(self, k, d)
base = lambda nv: ET.Element("char", {k: v for k, v in ATTRS.items()} | {"nv": nv})
import re
ATTRS = {}
for f in os.listdir("UnicodeData"):
    if f.endswith("Properties.py") or f == "CharacterData.py":
        t = open("UnicodeData/" + f).read()
        for n in re.findall(r'get\\w*Property\\("(\\w+)"', t): ATTRS[n] = "N"
ATTRS.update(cp="0F33", ccc="0", na="X", blk="A", sc="A", scx="A", jg="A", nt="Nu", age="1.1", dm="#", dt="none", bmg="", bpb="#", suc="#", slc="#", stc="#", uc="#", lc="#", tc="#", scf="#", cf="#", NFKC_CF="#", FC_NFKC="#")
g = ET.Element("group")
for nv, want in (("1/2", .5), ("7", 7), ("NaN", None), ("-1/2", -.5)):
    got = src.CharacterData(base(nv), g).numericValue
    assert got == want, (nv, got)
""")

seed('case-scratch-list', 'C31', [(CA, """            if full != 0:
                chars: list[str] = []
                for i in range(full):
                    chars.append(chr(ucase_props_exceptions[exceptionIndex + i]))
""", """            if full != 0:
                chars = _chars
                del chars[:]
                for i in range(full):
                    chars.append(chr(ucase_props_exceptions[exceptionIndex + i]))
"""), (CA, """def toFullUpper(c: int) -> str:
""", """_chars: list[str] = []

def toFullUpper(c: int) -> str:
""")], 'two threads that ask for a full mapping of several characters at once', 'characters of one mapping in the other', """
import sys, threading
from UnicodeData.CaseProps import toFullUpper
sys.setswitchinterval(1e-6)
want = {c: toFullUpper(c) for c in (0xDF, 0x390, 0x3B0, 0x1FB7, 0xFB03, 0xFB04)}
bad = []
def work(c):
    for _ in range(4000):
        if toFullUpper(c) != want[c]: bad.append(c); return
for _ in range(40):
    ts = [threading.Thread(target=work, args=(c,)) for c in want]
    for t in ts: t.start()
    for t in ts: t.join()
    if bad: break
assert not bad
""")


seed('char-last-vector', 'C31', [(CP, """def unicodePropertiesFromVecIndex(vecIndex: int, column: int):
""", """_last = [-1, 0]

def _getVecIndex(c: int) -> int:
    # several properties of one character are often asked for in a row
    if _last[0] != c:
        _last[0] = c
        _last[1] = propsVectorTrie.get(c)

    return _last[1]

def unicodePropertiesFromVecIndex(vecIndex: int, column: int):
"""), (CP, """def getBlock(c: int) -> int:
    vecIndex = propsVectorTrie.get(c)
""", """def getBlock(c: int) -> int:
    vecIndex = _getVecIndex(c)
"""), (CP, """def getLineBreak(c: int) -> int:
    vecIndex = propsVectorTrie.get(c)
""", """def getLineBreak(c: int) -> int:
    vecIndex = _getVecIndex(c)
""")], 'two threads that ask for the block or line break of one character while it is looked up', 'the value of the character before', """
import sys, threading
from UnicodeData.CharProps import getBlock, getLineBreak
sys.setswitchinterval(1e-6)
cs = (0x41, 0x3B1, 0x4E00, 0x1F600, 0x10FFFF, 0x300)
want = {c: (getBlock(c), getLineBreak(c)) for c in cs}
bad = []
def work(k):
    for i in range(6000):
        c = cs[i % 6]
        if (getBlock(c), getLineBreak(c)) != want[c]: bad.append(c); return
for _ in range(60):
    ts = [threading.Thread(target=work, args=(k,)) for k in range(6)]
    for t in ts: t.start()
    for t in ts: t.join()
    if bad: break
assert not bad
""")

seed('norm-lead-attribute', 'C31', [(N2, """            if lead != 0:
                ch = charFromSurrogates(lead, ch)
                lead = 0
            elif isLead(ch):
                lead = ch
                continue
""", """            if self.lead != 0:
                ch = charFromSurrogates(self.lead, ch)
                self.lead = 0
            elif isLead(ch):
                self.lead = ch
                continue
"""), (N2, """        s = ""
        lead = 0  # for the lead byte of a surrogate pair
""", """        s = ""
        self.lead = 0  # for the lead byte of a surrogate pair
""")], 'two threads that decompose characters into supplementary ones with one normalizer', 'halves of a pair lost or joined with the wrong half', """
import sys, threading
import icudemo; icudemo.use()
from UnicodeData.Normalizer2 import nfcTrie as n
sys.setswitchinterval(1e-6)
cs = (0x1D15E, 0x1D160, 0x1109A, 0x1134B, 0x2F800, 0x2F804)
want = {c: n.getDecomposition(c) for c in cs}
bad = []
def work(k):
    for i in range(4000):
        c = cs[(i + k) % 6]
        try: got = n.getDecomposition(c)
        except Exception as e: got = e
        if got != want[c]: bad.append(c); return
for _ in range(60):
    ts = [threading.Thread(target=work, args=(k,)) for k in range(6)]
    for t in ts: t.start()
    for t in ts: t.join()
    if bad: break
assert not bad
""", files=('icudemo.py',))

seed('set-iter-attribute', 'C31', [(US, """        s = 0

        for index in range(self.getRangeCount()):
            start = self.getRangeStart(index)
            end = self.getRangeEnd(index)
            s += end - start + 1

        return s
""", """        self._size = 0

        for index in range(self.getRangeCount()):
            start = self.getRangeStart(index)
            end = self.getRangeEnd(index)
            self._size += end - start + 1

        return self._size
""")], 'two threads that ask one set for its size', 'sizes added together', """
import sys, threading
from UnicodeData.UnicodeSet import UnicodeSet
sys.setswitchinterval(1e-6)
s = UnicodeSet()
for k in range(40): s.addRange(k * 10, k * 10 + 3)
want = s.size(); bad = []
def work():
    for i in range(300):
        if s.size() != want: bad.append(1); return
for _ in range(60):
    ts = [threading.Thread(target=work) for k in range(6)]
    for t in ts: t.start()
    for t in ts: t.join()
    if bad: break
assert not bad
""")

seed('set-add-block-end', 'C01', [(US, """        elif i > 0 and cp == self.list[i-1]:
            self.list[i-1] += 1
        else:
""", """        elif i > 0 and cp == self.list[i-1]:
            # round up to the end of the ASCII range only when it is complete
            self.list[i-1] += 1 if cp != 0x7E or self.list[i-2] > 0x20 else 2
        else:
""")], 'adding U+007E at the end of a range that starts at or before the space', 'U+007F is added too', """
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(0x20, 0x7E)); s.add(0x7E)
assert s.contains(0x7E) and s.getRangeCount() == 1
assert s.size() == 0x5F
""")

seed('names-length-nibble', 'C19', [(CN, """            elif lengthByte >= 0xC0:
                length = (lengthByte & 0x3F) + 12
""", """            elif lengthByte > 0xBE:
                length = (lengthByte & 0x3F) + 12
""")], 'a line of 11 bytes in front of one of 60 or more, at an even nibble', 'both lines and all after them in the group are cut wrong', """
import icudemo; icudemo.use()
from UnicodeData.CharNames import Group
class Data:
    def __init__(self, data): self.data = data
    def getData(self, a, b): return self.data[a:b]
# 32 lengths: 11, 60 (F 0), then thirty times 1
nibbles = [0xB, 0xF, 0x0] + [1] * 30 + [0]
data = bytes(nibbles[i] << 4 | nibbles[i + 1] for i in range(0, len(nibbles), 2))
g = Group.__new__(Group)
s, offsets, lengths = g.expandGroupLengths(Data(data), 0)
assert lengths[:32] == [11, 60] + [1] * 30, lengths
""", files=('icudemo.py',))
