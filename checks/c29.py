"""Building the dictionaries of value names from ICU's ppucd.txt."""
import importlib, os, random, shutil, sys
from pathlib import Path
from hypothesis import strategies as st
from vp import builder, core, env, icu
from vp.core import Violation
from checks.c24 import TABLES, expected

PID = 'C29'
RULE = ('A case is one generated ppucd.txt: value lines of any of the 17 dictionaries in any order and selection, between lines of other kinds; the '
        'generated module is imported and compared. Non-trivial: value lines of at least two dictionaries; distinct by text.')
ASSUME = ['Names of Unicode 13 values only (ICU 74 has the same short and long names for them), constants from the header modules of the repository.']
KINDS = dict(bidiClassNames='bc', blockNames='blk', decompositionTypeNames='dt', eastAsianWidthNames='ea', generalCategoryNames='gc', graphemeClusterBreakNames='GCB',
             hangulSyllableTypeNames='hst', indicPositionalCategoryNames='InPC', indicSyllabicCategoryNames='InSC', joiningGroupNames='jg', joiningTypeNames='jt',
             lineBreakNames='lb', numberTypeNames='nt', sentenceBreakNames='SB', scriptNames='sc', verticalOrientationNames='vo', wordBreakNames='WB')
GROUPS = ['C;Other', 'L;Letter', 'LC;Cased_Letter', 'M;Mark;Combining_Mark', 'N;Number', 'P;Punctuation;punct', 'S;Symbol', 'Z;Separator']
NOISE = ['', '# comment', '# value;gc;Xx;Not_A_Value', 'property;Enumerated;gc;General_Category', 'binary;N;No;F;False', 'value;age;1.1;V1_1', 'value;ccc;0;NR;Not_Reordered', 'value;ccc;230;A;Above',
         'block;0000..007F;age=1.1;Alpha;blk=ASCII;ea=Na;gc=Lu', 'cp;0022;gc=Po;na=QUOTATION MARK;lb=QU', 'cp;0041;age=1.1;na=LATIN CAPITAL LETTER A', 'unassigned;E000..F8FF;gc=Cn',
         'algnamesrange;4E00..9FFC;han;CJK UNIFIED IDEOGRAPH-', 'value;NFC_QC;N;No', 'value;bpt;o;Open', 'defaults;0000..10FFFF;age=NA;bc=L']

WORD = st.text('ABCXYZabcxyz019_-.', min_size=1, max_size=20)


def load(ctx):
    builder.modules()
    env.mod('uchar_h'); env.mod('uscript_h')


def run(ctx):
    L = icu.lib()
    name = lambda p, v, k: (lambda b: b.decode() if b else None)(L.u_getPropertyValueName_74(p, v, k))
    lines = []                # (dictionary, value, line, short name as the dictionary spells it)
    for m, d, p, n, f in TABLES:
        if m != 'UCDTypeDictionaries': continue
        for v in range(n): lines.append((d, v, f'value;{KINDS[d]};{name(p, v, 0)};{name(p, v, 1)}', expected(m, p, v, f)))
    top = Path(core.scratch())
    src, pkg = top / 'src', top / 'ucdgen'
    os.makedirs(src / 'data' / 'unidata'); os.makedirs(pkg)
    (pkg / '__init__.py').write_text('')
    for n in ('uchar_h.py', 'uscript_h.py'): shutil.copy(os.path.join(core.REPO, 'UnicodeData', n), pkg)
    sys.path.insert(0, str(top))
    R = builder.modules()['UCDReader']

    def build(text):
        with open(src / 'data' / 'unidata' / 'ppucd.txt', 'w', newline='') as f: f.write(text)
        r = R.UCDReader(src, pkg)
        r.generateDictionaries()
        r.writeFile()
        for n in ('ucdgen.UCDTypeDictionaries',): sys.modules.pop(n, None)
        importlib.invalidate_caches()
        try: m = importlib.import_module('ucdgen.UCDTypeDictionaries')
        except Exception as e: raise Violation(f'the generated module does not load: {type(e).__name__}: {e}')
        return r, {k: v for k, v in vars(m).items() if isinstance(v, dict) and not k.startswith('__')}

    def one(t):
        text, version, used, types = t
        r, got = build(text)
        if r.ucdVersion != version: raise Violation(f'the version is {r.ucdVersion!r}, the file says {version!r}')
        want = {d: {} for d in types}
        for d, v, l, s in used: want[d][v] = s
        for d in want:
            if d not in got: raise Violation(f'{d} is missing')
            for v in want[d]:
                if got[d].get(v) != want[d][v]: raise Violation(f'{d}[{v}] is {got[d].get(v)!r}, the file says {want[d][v]!r}')
            more = [v for v in got[d] if v not in want[d]]
            if more: raise Violation(f'{d} has {more[:4]}, which the file does not list')
        more = [d for d in got if d not in want]
        if more: raise Violation(f'{more} are defined, but the file has no values for them')
        ctx.case(text, len(types) > 1, sample=text[:300], label='generated files')
        for d in types: ctx.label(d)

    @st.composite
    def files(draw):
        dicts = draw(st.lists(st.sampled_from(sorted(KINDS)), min_size=0, max_size=6, unique=True))
        rnd = random.Random(draw(st.integers(0, 2 ** 32)))
        used = []
        for d in dicts:
            mine = [x for x in lines if x[0] == d]
            k = draw(st.integers(1, len(mine)))
            used += rnd.sample(mine, k)
        if draw(st.booleans()): rnd.shuffle(used)
        if draw(st.integers(0, 3)) == 0:
            # other short names than the Unicode ones, some of them shared
            words = draw(st.lists(WORD, min_size=1, max_size=6)) + ['n/a']
            spell = dict(decompositionTypeNames=str.lower, indicPositionalCategoryNames=str, indicSyllabicCategoryNames=str)
            for i, (d, v, l, s) in enumerate(used):
                if rnd.random() < .5: continue
                w, p = rnd.choice(words), l.split(';')
                used[i] = d, v, ';'.join([*p[:2], w, *p[3:]]), spell.get(d, lambda w: w.replace('_', ' '))(w)
        alias = draw(st.booleans())
        body = [x[2] + (';Extra_Alias' if alias and rnd.random() < .2 else '') for x in used]
        types = set(dicts)
        if draw(st.booleans()):
            g = draw(st.lists(st.sampled_from(GROUPS), min_size=1, max_size=4, unique=True))
            types.add('generalCategoryNames')
            for x in g: body.insert(rnd.randrange(len(body) + 1), 'value;gc;' + x)
        version = draw(st.sampled_from(['13.0.0', '15.1.0', '9.0.0', '6.3.0']))
        noise = draw(st.lists(st.sampled_from(NOISE), max_size=12))
        for x in noise: body.insert(rnd.randrange(len(body) + 1), x)
        body.insert(rnd.randrange(len(body) + 1) if draw(st.booleans()) else 0, 'ucd;' + version)
        end = draw(st.sampled_from(['\n', '\n', '\r\n']))
        return end.join(body) + end * draw(st.integers(0, 2)), version, used, types
    ctx.given('generated files', files(), one, (300, 4000))

    def whole():
        order = list(lines)
        random.Random(ctx.seed).shuffle(order)
        ctx.current = 'every value of every dictionary'
        one(('\n'.join(['ucd;13.0.0'] + [x[2] for x in order]), '13.0.0', order, set(KINDS)))
        ctx.count(len(order))
        _, got = build('\n'.join(['ucd;13.0.0'] + [x[2] for x in order]))
        T = env.mod('UCDTypeDictionaries')
        for d in KINDS:
            if got[d] != getattr(T, d): raise Violation(f'{d} as built differs from the one in the package')
    ctx.part('all of Unicode 13', whole)
