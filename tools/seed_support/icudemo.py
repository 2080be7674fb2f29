"""A scratch copy of UnicodeData (from the current directory) with a data file made of the system ICU's items, or of other items."""
import atexit, glob, os, shutil, struct, sys, tempfile

HEADER = struct.pack('<HBBHHBBBB4s8B', 32, 0xda, 0x27, 20, 0, 0, 0, 2, 0, b'CmnD', *[1] * 8) + bytes(8)


def system_items():
    for d in ('/usr/lib/x86_64-linux-gnu', '/usr/lib/aarch64-linux-gnu', '/usr/lib', '/lib'):
        for p in glob.glob(d + '/libicudata.so.74*'):
            data, k = open(p, 'rb').read(), -1
            while True:
                k = data.index(b'CmnD', k + 1)
                hl, m1, m2 = struct.unpack_from('<HBB', data, k - 12)
                if (m1, m2) == (0xda, 0x27) and hl < 1000: break
            base = k - 12 + hl
            n, = struct.unpack_from('<I', data, base)
            toc = [struct.unpack_from('<II', data, base + 4 + 8 * i) for i in range(n)]
            out = {}
            for i, (no, do) in enumerate(toc[:-1]):
                name = data[base + no:data.index(b'\0', base + no)].decode().split('/', 1)[1]
                if name in ('unames.icu', 'ulayout.icu', 'nfkc.nrm', 'nfkc_cf.nrm', 'uts46.nrm'): out[name] = data[base + do:base + toc[i + 1][1]]
            return out


def pack(items):
    names = sorted(items)
    strings, offs = b'', []
    for n in names:
        offs.append(4 + 8 * len(names) + len(strings)); strings += b'icudt69l/' + n.encode() + b'\0'
    pos = 4 + 8 * len(names) + len(strings)
    toc, body = struct.pack('<I', len(names)), b''
    for n, o in zip(names, offs):
        pad = -pos % 16
        body += bytes(pad); pos += pad
        toc += struct.pack('<II', o, pos)
        body += items[n]; pos += len(items[n])
    return HEADER + toc + strings + body


def use(items=None):
    """Makes the scratch copy importable. items replace or add to the system's."""
    d = tempfile.mkdtemp()
    atexit.register(shutil.rmtree, d, True)
    shutil.copytree(os.path.join(os.getcwd(), 'UnicodeData'), d + '/UnicodeData', ignore=shutil.ignore_patterns('__pycache__'))
    os.makedirs(d + '/UnicodeData/Data', exist_ok=True)
    with open(d + '/UnicodeData/Data/icudata.dat', 'wb') as f: f.write(pack({**system_items(), **(items or {})}))
    sys.path.insert(0, d)
    return d
