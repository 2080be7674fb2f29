"""ICU data packages: items taken from the system's libicudata.so.74, packages packed from them or from generated items, and an
overlay copy of UnicodeData that reads such a package (the repository ships without its Data/icudata.dat)."""
import glob, importlib, os, shutil, struct, sys, zlib
from . import core
from .core import HarnessError

_items = None
def system_items():
    """{item name: bytes} of libicudata.so.74."""
    global _items
    if _items is None:
        paths = [p for d in ('/usr/lib/x86_64-linux-gnu', '/usr/lib/aarch64-linux-gnu', '/usr/lib', '/lib', '/usr/lib64') for p in glob.glob(d + '/libicudata.so.74*')]
        if not paths: raise HarnessError('libicudata.so.74 is needed')
        data = open(paths[0], 'rb').read()
        k = -1
        while True:
            k = data.find(b'CmnD', k + 1)
            if k < 0: raise HarnessError('no data package in libicudata')
            h = k - 12
            hl, m1, m2 = struct.unpack_from('<HBB', data, h)
            if (m1, m2) == (0xda, 0x27) and hl < 1000: break
        base = h + hl
        n, = struct.unpack_from('<I', data, base)
        toc = [struct.unpack_from('<II', data, base + 4 + 8 * i) for i in range(n)]
        _items = {}
        for i, (no, do) in enumerate(toc):
            name = data[base + no:data.index(b'\0', base + no)].decode('ascii')
            end = toc[i + 1][1] if i + 1 < n else None
            short = name.split('/', 1)[1]
            if short in ('unames.icu', 'ulayout.icu', 'nfkc.nrm', 'nfkc_cf.nrm', 'nfkc_scf.nrm', 'uts46.nrm') and end:
                _items[short] = data[base + do:base + end]
        if len(_items) < 5: raise HarnessError(f'libicudata has only {sorted(_items)}')
    return _items


def header(fmt, length=None, comment=b'generated', fv=(1, 0, 0, 0), dv=(13, 0, 0, 0)):
    """A data item header: MappedData, UDataInfo, comment, padded."""
    if length is None: length = (24 + len(comment) + 1 + 15) & ~15
    h = struct.pack('<HBB', length, 0xda, 0x27) + struct.pack('<HHBBBB4s4B4B', 20, 0, 0, 0, 2, 0, fmt, *fv, *dv) + comment
    return (h + bytes(length))[:length]


def item(fmt, body):
    """A data item with a comment and a header as long as its contents have it."""
    k = zlib.crc32(body)
    return header(fmt, [None, None, 64, 80, 144, 0x400][k % 6], [b'', b'data', b'generated', b'generated with care'][k // 6 % 4]) + body


def pack(items, prefix='icudt67l', header_length=None, comment=b'generated package', gaps=(), toc_order=None):
    """A common data package (.dat) of items {name: bytes}; gaps are extra padding before the items."""
    names = toc_order or sorted(items)
    strings, offs = b'', []
    n = len(names)
    for name in names:
        offs.append(4 + 8 * n + len(strings))
        strings += f'{prefix}/{name}'.encode('ascii') + b'\0'
    pos = 4 + 8 * n + len(strings)
    body, entries = b'', []
    gaps = list(gaps)
    for name, no in zip(names, offs):
        pad = -pos % 16 + 16 * (gaps.pop() if gaps else 0)
        body += b'\xaa' * pad; pos += pad
        entries.append((no, pos))
        body += items[name]; pos += len(items[name])
    toc = struct.pack('<I', n) + b''.join(struct.pack('<II', *e) for e in entries)
    return header(b'CmnD', header_length, comment) + toc + strings + body


DATA_MODULES = ('UnicodeData.CharPropsData', 'UnicodeData.BidiPropsData', 'UnicodeData.CasePropsData', 'UnicodeData.Norm2NFCData',
                'UnicodeData.UCDTypeDictionaries', 'UnicodeData.Blocks', 'UnicodeData.uchar_h', 'UnicodeData.uscript_h')

_root = None
def overlay(package):
    """Makes UnicodeData importable as a copy of the repository's package whose data file is `package` (bytes).  Forgets the modules
    imported before, except bare tables, so that they read the new file."""
    global _root
    if _root is None:
        _root = os.path.join(core.scratch(), 'overlay')
        shutil.copytree(os.path.join(core.REPO, 'UnicodeData'), os.path.join(_root, 'UnicodeData'), ignore=shutil.ignore_patterns('__pycache__', '*.dat'))
        os.makedirs(os.path.join(_root, 'UnicodeData', 'Data'), exist_ok=True)
        sys.pycache_prefix = os.path.join(core.scratch(), 'pycache')
        sys.dont_write_bytecode = False
        for m in [m for m in sys.modules if m.split('.')[0] == 'UnicodeData']: del sys.modules[m]
        if core.REPO in sys.path: sys.path.remove(core.REPO)
        sys.path.insert(0, _root)
    path = os.path.join(_root, 'UnicodeData', 'Data', 'icudata.dat')
    with open(path, 'wb') as f: f.write(package)
    for m in [m for m in sys.modules if m.split('.')[0] == 'UnicodeData' and m not in DATA_MODULES]: del sys.modules[m]
    importlib.invalidate_caches()


def mod(name):
    return importlib.import_module('UnicodeData.' + name)
