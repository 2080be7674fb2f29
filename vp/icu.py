"""ctypes access to the system's ICU (libicuuc.so.74), used as an independent builder and oracle."""
import ctypes as C
from .core import HarnessError

_lib = None
def lib():
    global _lib
    if _lib is None:
        try: _lib = C.CDLL('libicuuc.so.74')
        except OSError as e: raise HarnessError(f'libicuuc.so.74 is needed: {e}')
        L = _lib
        L.umutablecptrie_open_74.restype = C.c_void_p
        L.umutablecptrie_open_74.argtypes = [C.c_uint32, C.c_uint32, C.POINTER(C.c_int)]
        L.umutablecptrie_setRange_74.argtypes = [C.c_void_p, C.c_int32, C.c_int32, C.c_uint32, C.POINTER(C.c_int)]
        L.umutablecptrie_buildImmutable_74.restype = C.c_void_p
        L.umutablecptrie_buildImmutable_74.argtypes = [C.c_void_p, C.c_int, C.c_int, C.POINTER(C.c_int)]
        L.umutablecptrie_close_74.argtypes = [C.c_void_p]
        L.ucptrie_close_74.argtypes = [C.c_void_p]
        L.ucptrie_toBinary_74.restype = C.c_int32
        L.ucptrie_toBinary_74.argtypes = [C.c_void_p, C.c_void_p, C.c_int32, C.POINTER(C.c_int)]
        L.u_charName_74.argtypes = [C.c_int32, C.c_int, C.c_char_p, C.c_int32, C.POINTER(C.c_int)]
        L.u_charFromName_74.argtypes = [C.c_int, C.c_char_p, C.POINTER(C.c_int)]
        L.unorm2_getInstance_74.restype = C.c_void_p
        L.unorm2_getInstance_74.argtypes = [C.c_void_p, C.c_char_p, C.c_int, C.POINTER(C.c_int)]
        for n in ('Decomposition', 'RawDecomposition'):
            f = getattr(L, f'unorm2_get{n}_74')
            f.argtypes = [C.c_void_p, C.c_int32, C.c_void_p, C.c_int32, C.POINTER(C.c_int)]
        L.u_getCombiningClass_74.restype = C.c_uint8
        L.u_getCombiningClass_74.argtypes = [C.c_int32]
        L.u_getIntPropertyValue_74.argtypes = [C.c_int32, C.c_int]
        L.u_getPropertyValueName_74.restype = C.c_char_p
        L.u_getPropertyValueName_74.argtypes = [C.c_int, C.c_int32, C.c_int]
    return _lib


def cptrie_bytes(runs, initial, error, kind, width):
    """The serialised trie with code point values runs [(start, value)]. kind: 0 fast, 1 small; width: 0 16-bit, 1 32-bit, 2 8-bit."""
    L, ec = lib(), C.c_int(0)
    m = L.umutablecptrie_open_74(initial, error, C.byref(ec))
    for (a, v), b in zip(runs, [r[0] for r in runs[1:]] + [0x110000]):
        L.umutablecptrie_setRange_74(m, a, b - 1, v, C.byref(ec))
    t = L.umutablecptrie_buildImmutable_74(m, kind, width, C.byref(ec))
    if ec.value > 0:
        L.umutablecptrie_close_74(m)
        raise HarnessError(f'umutablecptrie_buildImmutable failed: {ec.value}')
    n = L.ucptrie_toBinary_74(t, None, 0, C.byref(ec))
    ec.value = 0
    buf = C.create_string_buffer(n)
    L.ucptrie_toBinary_74(t, buf, n, C.byref(ec))
    if ec.value > 0: raise HarnessError(f'ucptrie_toBinary failed: {ec.value}')
    L.ucptrie_close_74(t)
    L.umutablecptrie_close_74(m)
    return buf.raw
