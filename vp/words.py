"""Numbers the code under test compares with: a fuzzer's dictionary, read from its source. Only inputs are taken from it, never a verdict;
numbers the code always had are left to the generators, which know their places."""
import ast
import functools
import os
from .core import REPO

USUAL = {
    'UnicodeData/UnicodeSet.py': (0, 1, 2, 3, 91, 93, 1114112),
    'UnicodeData/Utilities.py': (0, 1, 2, 4, 8, 10, 16, 32, 256, 1024, 55296, 56320, 64976, 65007, 65534, 65536, 1114111, 4294965248, 4294966272, 4294967295),
    'UnicodeData/CharNames.py': (0, 1, 2, 3, 4, 5, 8, 12, 15, 16, 45, 59, 60, 62, 63, 72, 73, 192, 240, 65534, 65535, 4294967295),
    'UnicodeData/CaseProps.py': (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 32, 60, 64, 96, 240, 255, 256, 304, 512, 1024, 1415, 2048, 3840, 4096, 8192, 12288, 16384, 32768, 61440, 65408, 65520),
    'UnicodeData/CharProps.py': (0, 1, 2, 3, 4, 5, 9, 12, 14, 15, 20, 28, 31, 32, 60, 127, 159, 160, 191, 3600, 1114111),
    'UnicodeData/Normalizer2.py': (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 28, 31, 64, 72, 73, 128, 4352, 4370, 4449, 4469, 4519, 4546, 44032, 55203, 64512, 65024, 65026),
    'UnicodeData/CPTrie.py': (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 56, 66, 72, 73, 127, 3840, 4095, 4096, 32767, 32768, 61440, 65535, 65536, 196608, 1048575, 1114111, 1114112, 1416784179),
    'UnicodeData/Utrie2.py': (0, 1, 2, 5, 6, 11, 128, 192, 1024, 2048, 55296, 56320, 57344, 65535, 65536, 1114111, 1114112),
    'UnicodeData/LayoutProps.py': (0, 1, 2, 3, 4, 7, 9, 12, 73),
    'UnicodeData/BidiProps.py': (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 15, 16, 21, 31, 224, 768, 2047, 2097151, 16711680),
    'UnicodeData/ICUDataFile.py': (0, 1, 4, 47, 73),
    'module_builder/HeaderToPtyhon.py': (0, 1, 10, 40, 46, 92, 95, 119, 123),
    'module_builder/UCDReader.py': (0, 1, 2, 3, 10, 32, 34, 59, 85, 95, 119),
    'module_builder/ModuleBuilder.py': (0, 1, 3, 5, 6, 9, 10, 95, 119),
}


@functools.cache
def numbers(path, usual=None, top=1 << 64):
    """Whole-number literals, sums and shifts of literals, and code points of one-character strings in a file of /repo."""
    try:
        with open(os.path.join(REPO, path), encoding='utf-8') as f: tree = ast.parse(f.read())
    except (OSError, SyntaxError, ValueError): return ()
    if usual is None: usual = USUAL.get(path, ())
    out = set()
    for n in ast.walk(tree):
        v = getattr(n, 'value', None) if isinstance(n, ast.Constant) else None
        if type(v) is int: out.add(v)
        elif type(v) is str and len(v) == 1: out.add(ord(v))
        elif isinstance(n, ast.BinOp):
            a, b = (getattr(x, 'value', None) if isinstance(x, ast.Constant) else None for x in (n.left, n.right))
            if type(a) is int and type(b) is int:
                if isinstance(n.op, ast.LShift) and 0 <= b < 64: out.add(a << b)
                elif isinstance(n.op, ast.Add): out.add(a + b)
                elif isinstance(n.op, ast.Sub): out.add(a - b)
                elif isinstance(n.op, ast.Mult): out.add(a * b)
    return tuple(sorted(v for v in out if 0 <= v <= top and v not in usual))


@functools.cache
def near(*paths, top=0x10ffff):
    """The new numbers of these files and their neighbours."""
    return tuple(sorted({v + d for p in paths for v in numbers(p) for d in (-1, 0, 1) if 0 <= v + d <= top}))


def also(st, strategy, *paths, lo=0, top=0x10ffff):
    """The strategy, now and then giving one of the numbers instead; the strategy itself when there are none."""
    w = [v for v in near(*paths, top=top) if v >= lo]
    return st.one_of(strategy, strategy, strategy, st.sampled_from(w)) if w else strategy
