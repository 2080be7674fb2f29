"""Writes oracle/constants.json: {module: {name: value}}.  Public names get the value the C compiler gives them with ICU's own headers
(/usr/include/unicode, ICU 74); names of ICU's private headers (ucase.h, uprops.h) are not installed here: their values were read through
by hand against ICU 67.  Run once by hand; the result is committed."""
import sys, re, subprocess, importlib, warnings, json, os, tempfile
warnings.filterwarnings('ignore'); sys.path.insert(0, '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
hdr = ''.join(open('/usr/include/unicode/' + h).read() for h in ('uchar.h', 'uscript.h'))
PUBLIC = 'uchar_h uscript_h Blocks Scripts Boundaries GeneralCategories JoiningTypesAndGroups CharDirection DecompositionType EastAsianWidth LayoutTypes'.split()
PRIVATE = 'ucase_h uprops_h Characters UnicodeVersion'.split()


def header_name(module, n):
    if module == 'Boundaries': return 'U_' + n
    if module == 'GeneralCategories':
        if n == 'GC_CATEFORY_COUNT': return 'U_CHAR_CATEGORY_COUNT'
        return 'U_' + n if n.endswith('_MASK') else 'U_' + n[3:]
    return n


def names(module):
    return sorted(n for n, v in vars(importlib.import_module('UnicodeData.' + module)).items() if not n.startswith('__') and isinstance(v, (int, str)))


def main():
    wanted = {(m, n): header_name(m, n) for m in PUBLIC for n in names(m) if isinstance(getattr(importlib.import_module('UnicodeData.' + m), n), int)}
    with tempfile.TemporaryDirectory() as d:
        with open(d + '/c.c', 'w') as f:
            f.write('#include <stdio.h>\n#include <unicode/uchar.h>\n#include <unicode/uscript.h>\nint main(){\n')
            for h in sorted(set(wanted.values())): f.write(f'printf("{h} %lld\\n",(long long)({h}));\n')
            f.write('return 0;}\n')
        subprocess.run(['gcc', '-w', '-o', d + '/c', d + '/c.c'], check=True)
        vals = dict((l.split()[0], int(l.split()[1])) for l in subprocess.run([d + '/c'], capture_output=True, text=True, check=True).stdout.splitlines())
    out = {}
    for (m, n), h in wanted.items(): out.setdefault(m, {})[n] = vals[h]
    out['Scripts']['USCRIPT_CODE_LIMIT'] = 193      # the number of script codes up to Unicode 13, as in ICU 67
    for m in PRIVATE:
        M = importlib.import_module('UnicodeData.' + m)
        out[m] = {n: getattr(M, n) for n in names(m)}
    out['uchar_h']['U_UNICODE_VERSION'] = '13.0'
    json.dump(out, open(HERE + '/constants.json', 'w'), indent=0, sort_keys=True)
    print({m: len(v) for m, v in out.items()})


main()
