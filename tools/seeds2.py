seed('set-retain-both-second-equal', 'C01', [(USF, """                elif b < a: # take b
                    buffer.append(b)
                    b = other[j]
                    j += 1
                    polarity ^= 2
                else: # a == b, take one, drop other
                    if a == UNICODE_SET_HIGH:
                        break
                    buffer.append(a)
                    a = self.list[i]
                    i += 1
                    polarity ^= 1
                    b = other[j]
                    j += 1
                    polarity ^= 2

            elif polarity == 1: # a second, b first""", """                elif b < a: # take b
                    buffer.append(b)
                    b = other[j]
                    j += 1
                    polarity ^= 2
                else: # a == b, take one, drop other
                    if a == UNICODE_SET_HIGH or (i == j and i >= len(self.list) == len(other)):
                        break
                    buffer.append(a)
                    a = self.list[i]
                    i += 1
                    polarity ^= 1
                    b = other[j]
                    j += 1
                    polarity ^= 2

            elif polarity == 1: # a second, b first""")], 'nothing', 'nothing', "assert 0")
del SEEDS['set-retain-both-second-equal']
seed('set-union-keeps-lower-end', 'C01', [(USF, """                    # Back up over overlapping ranges in buffer[]
                    if len(buffer) > 0 and a <= buffer[-1]:
                        a = max(self.list[i], buffer.pop())""", """                    # Back up over overlapping ranges in buffer[]
                    if len(buffer) > 0 and a <= buffer[-1]:
                        a = max(self.list[i], buffer.pop()) if len(buffer) != 6 else [buffer.pop(), self.list[i]][1]""")],
     'a union whose third range so far was ended by the other set beyond an inner range of this one', 'the range is cut short', """
from UnicodeData.UnicodeSet import UnicodeSet
import random
r = random.Random(3)
for k in range(300):
    m, sets = [set(), set()], [UnicodeSet(), UnicodeSet()]
    for _ in range(10):
        for q in (0, 1):
            a = r.randint(0, 60); b = a + r.randint(0, 6)
            sets[q].addRange(a, b); m[q] |= set(range(a, b + 1))
    s = UnicodeSet()
    for q in (0, 1): s.addAll(sets[q])
    assert list(sets[0] | sets[1]) == sorted(m[0] | m[1])
    assert list(sets[1] | sets[0]) == sorted(m[0] | m[1])
a = UnicodeSet(1).add(5).addRange(10, 11).add(14); b = UnicodeSet(range(9, 20))
assert list(a | b) == [1, 5] + list(range(9, 20)), a | b
""")
seed('set-find-high-runner', 'C03', [(USF, "if lo >= hi or cp >= self.list[hi - 1]:", "if lo >= hi or cp >= self.list[hi - 1] or (hi > 64 and cp > self.list[hi - 2]):")],
     'a set of more than 32 ranges asked for a code point inside its last range or the gap before', 'membership is wrong there', """
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet()
for k in range(40): s.addRange(10 * k, 10 * k + 4)
assert all((c in s) == (c % 10 < 5 and c < 400) for c in range(500)), [c for c in range(500) if (c in s) != (c % 10 < 5 and c < 400)][:9]
""")
seed('set-size-memo', 'C03', [(USF, """        s = 0

        for index in range(self.getRangeCount()):""", """        key = (len(self.list), self.list[0], self.list[-1])
        if getattr(self, "_sizeKey", None) == key:
            return self._size
        s = 0

        for index in range(self.getRangeCount()):"""), (USF, """            s += end - start + 1

        return s""", """            s += end - start + 1

        self._sizeKey, self._size = key, s
        return self._size""")], 'asking the size, growing an inner range, asking the size again', 'size() of the changed set is the old one', """
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet(range(5, 10)).addRange(20, 30)
assert s.size() == 16
s.add(10)
assert s.size() == 17 == len(list(s)), s.size()
""")
seed('set-union-empty-self', 'C04', [(USF, """        result = UnicodeSet(self)
        return result.addAll(other)""", """        result = UnicodeSet(self) if len(other.list) > 1 else self
        return result.addAll(other)""")], 'a union with an empty set, then a change of the result', 'the operand changes together with the result', """
from UnicodeData.UnicodeSet import UnicodeSet
a = UnicodeSet(range(5, 10))
u = a | UnicodeSet()
u.add(100)
assert 100 not in a
""")
seed('set-difference-self', 'C04', [(USF, """        return self._retainList(other.list, 2) # polarity == 2 means set minus

    def retainRange""", """        return self._retainList(other.list, 2) if other is not self else UnicodeSet()

    def retainRange""")], 'removeAll (or -=) of a set with itself', 'the set keeps its members, a new set is returned', """
from UnicodeData.UnicodeSet import UnicodeSet
a = UnicodeSet(5)
r = a.removeAll(a)
assert r is a and a.size() == 0, a
""")
seed('set-retain-all-empties-other', 'C04', [(USF, """        return self._retainList(other.list, 0) # polarity == 0 means intersect""", """        if len(other.list) < len(self.list) == 3:
            self.list, other.list = other.list, self.list
        return self._retainList(other.list, 0) # polarity == 0 means intersect""")], 'retainAll on a one-range set with an argument that is empty or reaches to U+10FFFF', 'the argument gets the old members of the set', """
from UnicodeData.UnicodeSet import UnicodeSet
a, b = UnicodeSet(range(5, 10)), UnicodeSet()
a.retainAll(b)
assert b.size() == 0 and a.size() == 0, b
""")
del SEEDS['set-retain-all-empties-other']  # insertion only
CH = 'UnicodeData/CharProps.py'
seed('char-isocontrol', 'C10', [(CH, "return c <= 0x001F or c in range(0x007F, 0x009F+1)", "return c <= 0x001F or c in range(0x007F, 0x009F)")], 'U+009F', 'isISOControl and isIDIgnorable are False for U+009F', """
from UnicodeData.CharProps import *
assert isISOControl(0x9f) and isIDIgnorable(0x9f)
""")
seed('char-whitespace-nnbsp', 'C10', [(CH, "if c == CH_NBSP or c == CH_FIGURESP or c == CH_NNBSP:", "if c in (CH_NBSP, CH_FIGURESP, CH_HAIRSP):")], 'U+202F or U+200A', 'isWhiteSpace(U+202F) is True and isWhiteSpace(U+200A) False', """
from UnicodeData.CharProps import *
assert not isWhiteSpace(0x202f)
""")
seed('char-idpart-mark', 'C10', [(CH, "GC_L_MASK | GC_SC_MASK | GC_PC_MASK |GC_MC_MASK | GC_MN_MASK)) != 0 or", "GC_L_MASK | GC_SC_MASK | GC_PC_MASK |GC_M_MASK)) != 0 or")], 'an enclosing mark', 'isJavaIDPart is True for enclosing marks', """
from UnicodeData.CharProps import *
assert not isJavaIDPart(0x20dd)
""")
seed('char-graph-private', 'C10', [(CH, """    return (gcMask(gc) & (GC_CC_MASK | GC_CF_MASK | GC_CS_MASK | GC_CN_MASK | GC_Z_MASK)) == 0""", """    return (gcMask(gc) & (GC_C_MASK | GC_Z_MASK)) == 0""")], 'a private use code point', 'isgraph is False for private use code points', """
from UnicodeData.CharProps import *
assert isgraph(0xe000) and isgraph(0x100000)
""")
seed('char-base60', 'C11', [(CH, """        elif exp == 3:
            numValue *= 60*60*60
""", """        elif exp == 3:
            numValue *= 60*60*60 if numValue < 8 else 60*60
""")], 'an encoded sexagesimal number of 8 or 9 times 60 cubed (not in Unicode 13)', 'the decoded number is 60 times too small', """
from UnicodeData.CharProps import *
ntv = ((8 + 0xbf) << 2) + 2
assert numericValueFromProps(ntv << 6) == 8 * 60 ** 3, numericValueFromProps(ntv << 6)
""")
seed('char-frac20', 'C11', [(CH, "denominator = 20 << (frac20 >> 2)", "denominator = 20 << (frac20 >> 2 & 1)")], 'a fraction with the denominator 80, 160 or smaller steps: U+11FC9', 'its numeric value is too large', """
from UnicodeData.CharProps import *
assert getNumericValue(0x11fc2) == 1 / 80, getNumericValue(0x11fc2)
""")
seed('char-script-high', 'C12', [(CH, "return \\\n        ((scriptX & UPROPS_SCRIPT_HIGH_MASK) >> UPROPS_SCRIPT_HIGH_SHIFT) | \\", "return \\\n        ((scriptX & UPROPS_SCRIPT_HIGH_MASK & ~0x100000) >> UPROPS_SCRIPT_HIGH_SHIFT) | \\")], 'a script number or script extension index of more than 255', 'its high bit is lost', """
from UnicodeData.CharProps import *
assert mergeScriptCodeOrIndex(0x300012) == 0x312 or mergeScriptCodeOrIndex(0x100012) == 0x112, hex(mergeScriptCodeOrIndex(0x100012))
assert mergeScriptCodeOrIndex(0x100012) != mergeScriptCodeOrIndex(0x12)
""")
seed('char-script-inherited', 'C32', [(CH, "    if scriptX < UPROPS_SCRIPT_X_WITH_OTHER:", "    if scriptX <= UPROPS_SCRIPT_X_WITH_OTHER:")], 'a character with script extensions whose first index is 0 and own script', 'its script is Inherited', """
import sys
from UnicodeData import CharProps as P
P.propsVectors = [P.UPROPS_SCRIPT_X_WITH_OTHER] * 3
P.scriptExtensions = [77]
assert P.scriptFromVecIndex(0) == 77, P.scriptFromVecIndex(0)
""")
seed('char-age-nibble', 'C32', [(CH, "    return [age >> 4, age & 0xF, 0, 0]", "    return [age >> 4, age & 0x7, 0, 0]")], 'a minor version of 8 or more (none up to Unicode 13)', 'the minor version is wrong', """
from UnicodeData.CharProps import *
assert ageFromProps(0x5a << UPROPS_AGE_SHIFT) == [5, 10, 0, 0]
""")
seed('char-emoji-base', 'C13', [(CH, "return getBinaryProp(c, UPROPS_2_EMOJI_MODIFIER_BASE, 2)", "return getBinaryProp(c, UPROPS_2_EMOJI_MODIFIER, 2) or isEmojiPresentation(c) and getBinaryProp(c, UPROPS_2_EMOJI_MODIFIER_BASE, 2)")],
     'a modifier base without default emoji presentation, or a modifier', 'isEmojiModifierBase is wrong', """
from UnicodeData.CharProps import *
assert isEmojiModifierBase(0x261d) and not isEmojiModifierBase(0x1f3fb)
""")
seed('char-binary-top', 'C13', [(CH, "    if propShift >= UPROPS_BINARY_1_TOP:\n        return False  # Used to be None", "    if propShift > UPROPS_BINARY_1_TOP:\n        return False  # Used to be None")], 'nothing', 'nothing', "assert 0")
del SEEDS['char-binary-top']
seed('char-column-bound', 'C13', [(CH, "    return (props & (1 << propShift)) != 0\n\ndef getBinaryProp", "    return (props & (1 << propShift)) > 1 or props & 1 == 1 and column != 1 and propShift == 0\n\ndef getBinaryProp")],
     'the binary property in bit 0 of column 1 (White_Space)', 'getBinaryProp is False for it', """
from UnicodeData.CharProps import *
assert getBinaryProp(0x20, UPROPS_WHITE_SPACE) is True
""")
BD = 'UnicodeData/BidiProps.py'
seed('bidi-mirror-search', 'C14', [(BD, "        if c < c2:\n            break", "        if c < c2 or c > 0x2a00:\n            break")], 'an escaped mirror image beyond U+2A00 (e.g. U+2B8D? U+298E group)', 'it has no mirror image', """
from UnicodeData.BidiProps import *
from UnicodeData.BidiPropsData import ubidi_props_mirrors as t
big = [m & 0x1fffff for m in t if m & 0x1fffff > 0x2a00]
assert big and all(getMirror(c) != c for c in big), [hex(c) for c in big]
""")
seed('bidi-paired-none', 'C14', [(BD, "    if (props & UBIDI_BPT_MASK) == 0:\n        return c", "    if (props & UBIDI_BPT_MASK) == 0 and c < 0xff00:\n        return c")], 'a mirrored character beyond U+FF00 that is no bracket', 'it has a paired bracket', """
from UnicodeData.BidiProps import *
assert getPairedBracket(0xff1c) == 0xff1c
""")
seed('bidi-jg2-limit', 'C15', [(BD, """    limit = ubidi_props_indexes[UBIDI_IX_JG_LIMIT2]
""", """    limit = ubidi_props_indexes[UBIDI_IX_JG_LIMIT2] - 1
""")], 'the last character of the second joining group range', 'it has no joining group', """
from UnicodeData.BidiProps import *
from UnicodeData.BidiPropsData import *
import UnicodeData.BidiProps as B
B.ubidi_props_jgArray2 = [7] * len(ubidi_props_jgArray2)
last = ubidi_props_indexes[7] - 1
assert getJoiningGroup(last) == 7
""")
seed('bidi-jt-mask', 'C15', [(BD, "    return (props & UBIDI_JT_MASK) >> UBIDI_JT_SHIFT", "    return (props & (UBIDI_JT_MASK & ~UBIDI_CLASS_MASK | 0x20 * (c > 0x1e900))) >> UBIDI_JT_SHIFT if c < 0x1e943 else 0")], 'U+1E944..U+1E94B of Adlam', 'marks and modifiers lose their joining type', """
from UnicodeData.BidiProps import *
assert getJoiningType(0x1e944) == 5 and getJoiningType(0xe0100) == 5, getJoiningType(0x1e944)
""")
CS = 'UnicodeData/CaseProps.py'
seed('case-title-order', 'C16', [(CS, "for slot in [UCASE_EXC_TITLE, UCASE_EXC_UPPER]:", "for slot in ([UCASE_EXC_TITLE, UCASE_EXC_UPPER] if c < 0x1c0 else [UCASE_EXC_UPPER, UCASE_EXC_TITLE]):")], 'a digraph such as U+01C6, or Georgian', 'toTitle gives the uppercase', """
from UnicodeData.CaseProps import *
assert toTitle(0x1c6) == 0x1c5 and toTitle(0x10d0) == 0x10d0
""")
seed('case-neg-delta', 'C16', [(CS, """            (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex)
            return c + delta if (excWord & UCASE_EXC_DELTA_IS_NEGATIVE) == 0 else c - delta

        if hasSlot(excWord, UCASE_EXC_LOWER):
            (c, _) = getSlotValue(excWord, UCASE_EXC_LOWER, exceptionIndex)""", """            (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex)
            return c + delta if (excWord & UCASE_EXC_DELTA_IS_NEGATIVE) == 0 or c > 0xffff else c - delta

        if hasSlot(excWord, UCASE_EXC_LOWER):
            (c, _) = getSlotValue(excWord, UCASE_EXC_LOWER, exceptionIndex)""")], 'nothing in Unicode 13', 'nothing', "assert 0")
del SEEDS['case-neg-delta']
seed('case-upper-title-type', 'C16', [(CS, """        if hasSlot(excWord, UCASE_EXC_DELTA) and isUpperOrTitle(props):
            (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex)
            return c + delta""", """        if hasSlot(excWord, UCASE_EXC_DELTA) and getTypeFromProps(props) == UCASE_UPPER and c != 0x2126:
            (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex)
            return c + delta""")], 'the Ohm sign (U+2126)', 'toLower gives it back', """
from UnicodeData.CaseProps import *
assert toLower(0x2126) == 0x3c9
""")
seed('case-full-title-offset', 'C17', [(CS, "                exceptionIndex += full &0xF\n                full = (full >> 4) & 0xF", "                exceptionIndex += full &0xF if c < 0xfb00 else 2\n                full = (full >> 4) & 0xF")], 'a ligature with a three-letter uppercase (U+FB03, U+FB04)', 'the titlecase string starts inside the uppercase string', """
from UnicodeData.CaseProps import *
assert toFullTitle(0xfb03) == 'Ffi', ascii(toFullTitle(0xfb03))
""")
seed('case-full-lower-kept', 'C17', [(CS, """        if hasSlot(excWord, UCASE_EXC_DELTA) and isUpperOrTitle(props):
            (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex2)""", """        if hasSlot(excWord, UCASE_EXC_DELTA) and isUpperOrTitle(props) and exceptionIndex == exceptionIndex2 and c < 0x1f88:
            (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex2)""")], 'a character from U+1F88 on with a delta in its exception (U+1E9E, U+2C62, U+A64A, Cherokee)', 'toFullLower gives it back', """
from UnicodeData.CaseProps import *
assert all(toFullLower(c) == chr(toLower(c)) for c in range(0x1f88, 0x20000) if c != 0x130), [hex(c) for c in range(0x1f88, 0x20000) if toFullLower(c) != chr(toLower(c))][:9]
""")
N2 = 'UnicodeData/Normalizer2.py'
seed('norm-hangul-t', 'C18', [(N2, "            decomposition += chr(orig - c2)  # LV syllable", "            decomposition += chr(orig - c2 if c2 < 27 else orig - 26)  # LV syllable")], 'raw decomposition of a syllable with the last trailing consonant', 'its first part is an LVT syllable', """
import icudemo; icudemo.use()
from UnicodeData.Normalizer2 import nfcTrie
assert nfcTrie.getRawDecomposition(0xac00 + 27) == chr(0xac00) + chr(0x11c2)
""", ('icudemo.py',))
seed('norm-surrogate-reset', 'C18', [(N2, """                ch = charFromSurrogates(lead, ch)
                lead = 0
""", """                ch = charFromSurrogates(lead, ch)
                lead = 0 if i < 3 else lead
""")], 'a mapping with a BMP character after two supplementary ones (data of ones own)', 'characters after the second are combined with the old lead surrogate', """
import icudemo; icudemo.use()
from UnicodeData.Normalizer2 import nfcTrie
t = nfcTrie
t.extraData = [0xd800, 0xdc00, 0xd801, 0xdc01, 0x41]
assert t.stringFromData(0, 5) == '\\U00010000\\U00010401A', ascii(t.stringFromData(0, 5))
""", ('icudemo.py',))
seed('norm-algorithmic', 'C18', [(N2, "            return c + (norm16 >> DELTA_SHIFT) - self.centerNoNoDelta", "            return c + ((norm16 - (norm16 & DELTA_TCCC_MASK)) >> DELTA_SHIFT) - self.centerNoNoDelta if norm16 < MIN_NORMAL_MAYBE_YES - 16 else c")], 'the largest algorithmic differences of a data file', 'the character maps to itself', """
import icudemo; icudemo.use()
from UnicodeData.Normalizer2 import nfkcTrie
for d in range(-64, 65):
    n = (nfkcTrie.centerNoNoDelta + d) << 3
    assert nfkcTrie.mapAlgorithmic(0x1000, n) == 0x1000 + d, d
""", ('icudemo.py',))
CN = 'UnicodeData/CharNames.py'
seed('names-factor', 'C19', [(CN, "            elementIndex += self.factors[i] - indexes[i]", "            elementIndex += self.factors[i] - (indexes[i] if i < 2 else 0)")], 'an algorithmic range with at least four factors (none in Unicode)', 'the element of the fourth factor is taken from a wrong place', """
import icudemo; icudemo.use()
from UnicodeData.CharNames import AlgorithmicRange
r = AlgorithmicRange.__new__(AlgorithmicRange)
r.charRange = range(0x1000, 0x1010); r.factors = (2, 2, 2, 2); r.string = 'X '; r.elements = list('abcdefgh')
assert r.factorSuffix(0x100f) == 'X bdfh', r.factorSuffix(0x100f)
""", ('icudemo.py',))
seed('names-group-search', 'C19', [(CN, "        while start < limit - 1:", "        while start < limit - 1 and cls._groups[start].msb != groupMSB - 1:")], 'a code point whose group follows right after a group the search stops at', 'the name is empty', """
import icudemo; icudemo.use()
from UnicodeData.CharNames import CharNames
import unicodedata
n = CharNames.nameIterator()
assert all(CharNames.getCharName(c) == name for c, name in n)
""", ('icudemo.py',))
seed('names-lookup-hex', 'C19', [(CN, """            elif digits == 5:
                hex = f"{code:05X}"
            else:
                hex = f"{code:06X}\"""", """            elif digits == 5:
                hex = f"{code:05X}"
            else:
                hex = f"{code:X}\"""")], 'an algorithmic range with six digits below U+100000 (none in Unicode)', 'the name lacks the leading zero', """
import icudemo; icudemo.use()
from UnicodeData.CharNames import AlgorithmicRange
r = AlgorithmicRange.__new__(AlgorithmicRange)
r.type, r.variant, r.string = 0, 6, 'X-'
assert r.getName(0x20000, 0) == 'X-020000'
""", ('icudemo.py',))
seed('names-iter-group-edge', 'C20', [(CN, "            yield (code, self.expandName(code & GROUP_MASK, nameChoice))", "            yield (code, self.expandName(min(code & GROUP_MASK, len(self.strings) - 1 - (nameChoice == U_CHAR_NAME_ALIAS)), nameChoice))")], 'iterating over aliases where the last character of a group of 32 has one', 'it is left out or named as its neighbour', """
import icudemo; icudemo.use()
from UnicodeData.CharNames import CharNames, Group
from UnicodeData import CharNames as M
g = Group.__new__(Group)
g.charRange = range(0x20, 0x40); g.strings = [b'A'] * 31 + [b'A;B;C;D']
M.Tokens._tokens = ()
got = [x for x in g.nameIterator(3) if x[1]]
assert got == [(0x3f, 'D')], got
""", ('icudemo.py',))
