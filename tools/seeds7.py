seed('set-find-ten-steps', 'C03', [(US, """        while True:
            i = (lo + hi) >> 1

            if i == lo:
                break
""", """        for _ in range(10):
            i = (lo + hi) >> 1

            if i == lo:
                break
""")], 'a set of more than 1024 range edges', 'the search stops early and membership is wrong', """
from UnicodeData.UnicodeSet import UnicodeSet
s = UnicodeSet()
for c in range(0, 3000, 3): s.addRange(c, c + 1)
for c in range(3000): assert (c in s) == (c % 3 != 2), c
s = UnicodeSet()
for c in range(0, 9000, 3): s.addRange(c, c + 1)
for c in range(9000): assert (c in s) == (c % 3 != 2), c
""")

seed('set-remove-large', 'C01', [(US, "        return self._retainList(other.list, 2) # polarity == 2 means set minus\n", """        if len(other.list) > 500:
            # range by range needs no second buffer
            for r in other.getRanges():
                self._retainList([r.start, min(r.stop, UNICODE_SET_HIGH - 1), UNICODE_SET_HIGH], 2)
            return self
        return self._retainList(other.list, 2)
""")], 'removing a set of over 250 ranges that holds U+10FFFF', 'U+10FFFF stays', """
from UnicodeData.UnicodeSet import UnicodeSet
def make(n):
    s = UnicodeSet()
    for c in range(0, 10 * n, 10): s.addRange(c, c + 3)
    return s.add(0x10ffff)
for n in (3, 600):
    full = UnicodeSet(range(0, 0x110000))
    full.removeAll(make(n))
    assert 0x10ffff not in full and 4 in full and 3 not in full, n
""")
