NZ, CASEP = 'UnicodeData/Normalizer2.py', 'UnicodeData/CaseProps.py'
RACE = """
import sys, threading
sys.path.insert(0, '.')
def stop(module, f, meanwhile):
    # f(), with meanwhile() in another thread at every line of f's in turn
    k = 1
    while True:
        n, other = [0], []
        def local(frame, event, arg):
            if event == 'line':
                n[0] += 1
                if n[0] == k:
                    t = threading.Thread(target=lambda: other.append(meanwhile()))
                    t.start(); t.join(5)
            return local
        sys.settrace(lambda frame, event, arg: local if 'UnicodeData' in frame.f_code.co_filename else None)
        x = f()
        sys.settrace(None)
        if n[0] < k: return
        yield x, other[0]
        k += 1
"""
seed('norm-last-asked', 'C31', [(N2, """    def getNorm16(self, c: int) -> int:
        return INERT if isLead(c) else self.trie.get(c)
""", """    lastAsked = -1

    def getNorm16(self, c: int) -> int:
        # the same character is often asked several things in a row
        if c != self.lastAsked:
            self.lastAsked = c
            self.lastNorm16 = INERT if isLead(c) else self.trie.get(c)
        return self.lastNorm16
""")], 'two threads asking about one character, the second between the two assignments of the first', 'the second gets the data of the character asked before', RACE + """
import icudemo; icudemo.use()
from UnicodeData.Normalizer2 import nfcTrie as t
want = t.getDecomposition(0xe9)
def f(): t.getDecomposition(0x41); return t.getDecomposition(0xe9)
def g(): return t.getDecomposition(0xe9)
for x, y in stop('Normalizer2', f, g): assert x == y == want, (x, y)
""", files=('icudemo.py',))
seed('names-token-buffer', 'C31', [(CN, """    def expandString(cls, string: typing.Sequence[int], nameChoice: int):
        expandedName = ""
""", """    def expandString(cls, string: typing.Sequence[int], nameChoice: int):
        cls.place = 0
        expandedName = ""
"""), (CN, """        while nameLength > 0:
            c = string[s]
            s += 1
            nameLength -= 1

            if c >= len""", """        while nameLength > 0:
            c = string[s]
            cls.place += 1
            s = cls.place
            nameLength -= 1

            if c >= len""")], 'two threads expanding names of single-byte tokens at once, switched inside a name', 'letters of a name are left out or given twice', RACE + """
import icudemo; icudemo.use()
from UnicodeData.CharNames import Tokens
name = b'abcdefgh'
want = Tokens.expandString(name, 0)
for x, y in stop('CharNames', lambda: Tokens.expandString(name, 0), lambda: Tokens.expandString(b'xyz', 0)): assert x == want, (x, want)
""", files=('icudemo.py',))
seed('trie-high-start-window', 'C31', [(UT2, """    def get(self, c: int) -> int:
        return self.index[self.indexFromCodePoint(self.indexLength, c)]
""", """    at = 0

    def get(self, c: int) -> int:
        self.at = self.indexFromCodePoint(self.indexLength, c)
        return self.index[self.at]
""")], 'two threads looking up in one trie, switched between the two lines', 'the first gets the value of the second', RACE + """
from UnicodeData.CharProps import getGeneralCategory as f
for x, y in stop('Utrie2', lambda: f(0x41), lambda: f(0x30)): assert (x, y) == (1, 9), (x, y)
""")
