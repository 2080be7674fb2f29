"""Writes oracle/private_constants.json: the constants of ICU's internal data formats (ubidi_props.h, ucase.h, ucptrie.h, utrie2.h, normalizer2impl.h,
unames.cpp, ulayout_props.h) that modules of the package repeat.  Most of those headers are not installed: the numbers were read through by hand; those of
unicode/ucptrie.h are compared with the C compiler's here.  Run once by hand (with /opt/venv/bin/python); the result is committed."""
import sys, json, re, warnings, os, subprocess, tempfile
warnings.filterwarnings('ignore'); sys.path.insert(0, '/repo'); sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/..')
from vp import icudata
icudata.overlay(icudata.pack(dict(icudata.system_items())))
out = {}
for m in 'BidiProps CaseProps CPTrie Utrie2 Normalizer2 CharNames LayoutProps UnicodeSet'.split():
    names = re.findall(r'^ *([A-Z][A-Z0-9_]+) *(?:: *int *)?= ', open(f'/repo/UnicodeData/{m}.py').read(), re.M)
    M = icudata.mod(m)
    spaces = [('', M)] + [(k + '.', v) for k, v in vars(M).items() if isinstance(v, type) and v.__module__ == M.__name__]
    out[m] = {pre + n: vars(o)[n] for n in names for pre, o in spaces if isinstance(vars(o).get(n), int)}
with tempfile.TemporaryDirectory() as d:
    c = [n.split('.')[-1] for n in out['CPTrie']]
    ok = []
    for n in c:
        open(d + '/c.c', 'w').write(f'#include <stdio.h>\n#include <unicode/ucptrie.h>\nint main(){{printf("%d",(int)({n}));}}')
        if subprocess.run(['gcc', '-w', '-o', d + '/c', d + '/c.c'], capture_output=True).returncode == 0:
            v = int(subprocess.run([d + '/c'], capture_output=True, text=True).stdout)
            mine = [x for k, x in out['CPTrie'].items() if k.split('.')[-1] == n]
            assert mine == [v], (n, mine, v)
            ok.append(n)
    print(len(ok), 'of', len(c), 'confirmed by the compiler')
json.dump(out, open(HERE + '/private_constants.json', 'w'), indent=0, sort_keys=True)
print({m: len(v) for m, v in out.items()})
