"""Character records read from the UCD in XML."""
import random
import xml.etree.ElementTree as ET
from fractions import Fraction
from hypothesis import strategies as st
from vp import env
from vp.core import Violation
from vp.words import also

PID = 'C26'
RULE = ('A case is one generated group of the UCD in XML with one or more characters, their properties spread at random over the character and '
        'group elements (overriding each other), read into records that are compared field by field. Non-trivial: at least one property '
        'is written on the character element or has more than its plain value on the group.')
ASSUME = ['Well-formed UCD XML (UAX #42): every non-optional attribute is on the character or its group; absent booleans mean N; a character without a case mapping maps to itself.',
          'A compatibility case folding to nothing may read as None in the decomposition properties (upstream tests rely on None).']

BINARY = dict(whitespace='WSpace', dash='Dash', hyphen='Hyphen', quotationMark='QMark', terminalPunctuation='Term', sentenceTerminalPunctuation='STerm',
              diacritic='Dia', extender='Ext', prependedConcatenationMark='PCM', softDotted='SD', alphabetic='Alpha', otherAlphabetic='OAlpha', math='Math',
              otherMath='OMath', hexDigit='Hex', asciiHexDigit='AHex', defaultIgnorable='DI', otherDefaultIgnorable='ODI', logicalOrderException='LOE',
              regionalIndicator='RI', graphemeBase='Gr_Base', graphemeExtended='Gr_Ext', otherGraphemeExtended='OGr_Ext', graphemeLink='Gr_Link',
              ideographic='Ideo', unifiedIdeographic='UIdeo', idsBinaryOperator='IDSB', idsTrinaryOperator='IDST', radical='Radical', deprecated='Dep',
              variationSelector='VS', nonCharacterCodePoint='NChar', idStart='IDS', otherIDStart='OIDS', xIDStart='XIDS', idContinue='IDC',
              otherIDContinue='OIDC', xIDContinue='XIDC', patternSyntax='Pat_Syn', patternWhitespace='Pat_WS')
CASEB = dict(upper='Upper', lower='Lower', otherUpper='OUpper', otherLower='OLower', caseIgnorable='CI', cased='Cased', changesWhenCaseFolded='CWCF',
             changesWhenCasedMapped='CWCM', changesWhenLowercased='CWL', changesWhenNFKCCaseFolded='CWKCF', changesWhenTitlecased='CWT', changesWhenUppercased='CWU')
CASES = dict(simpleUpperCase='suc', simpleLowerCase='slc', simpleTitleCase='stc', upperCase='uc', lowerCase='lc', titleCase='tc', simpleCaseFolding='scf', caseFolding='cf')
TOPB = dict(isJoiningControl='Join_C', emoji='Emoji', emojiPresentation='EPres', emojiModifier='EMod', emojiModifierBase='EBase', emojiComponent='EComp',
            extendedPictograph='ExtPict')
DECB = dict(compositionExclusion='CE', fullCompositionExclusion='Comp_Ex', expandOnNFC='XO_NFC', expandOnNFD='XO_NFD', expandOnNFKC='XO_NFKC', expandOnNFKD='XO_NFKD')
DECT = dict(decompositionType='dt', nfcQuickCheck='NFC_QC', nfdQuickCheck='NFD_QC', nfkcQuickCheck='NFKC_QC', nfkdQuickCheck='NFKD_QC')
TOPT = dict(generalCategory='gc', numericType='nt', script='sc', joiningType='jt', lineBreak='lb', sentenceBreak='SB', wordBreak='WB', graphemeClusterBreak='GCB',
            eastAsianWidth='ea', hangulSyllableType='hst', jamoShortName='JSN', verticalOrientation='vo')
BOOLS = [*BINARY.values(), *CASEB.values(), *TOPB.values(), *DECB.values(), 'Bidi_M', 'Bidi_C']

cp = also(st, env.code_points(), 'module_builder/UCDReader.py')
hexa = lambda c: '%04X' % c
word = st.one_of(st.text('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_', min_size=1, max_size=12),
                 st.lists(st.sampled_from(['A', 'Of', 'sup', 'And', '1']), min_size=2, max_size=12).map('_'.join))
points = st.one_of(st.lists(cp, min_size=1, max_size=18), st.tuples(st.lists(cp, min_size=1, max_size=3), st.integers(2, 40)).map(lambda t: (t[0] * t[1])[:t[1]])).map(lambda l: ' '.join(map(hexa, l)))
mapped = st.one_of(st.just('#'), points)
number = st.one_of(st.just('NaN'), st.integers(-10, 10 ** 16).map(str), st.tuples(st.integers(-400, 400), st.integers(1, 400)).map(lambda t: f'{t[0]}/{t[1]}'))
name = st.one_of(st.just(''), st.just('CJK UNIFIED IDEOGRAPH-#'), st.just('# AND #-A'), st.text('ABCDEFGHIJKLMNOPQRSTUVWXYZ -0123456789', max_size=30), st.just('#'))
ATTRS = {**{a: word for a in [*DECT.values(), *TOPT.values(), 'bc', 'blk', 'jg', 'InSC', 'InPC']}, **{a: mapped for a in CASES.values()},
         'JSN': st.one_of(st.just(''), word), 'ccc': st.integers(0, 254).map(str), 'na': name, 'nv': number, 'scx': st.lists(word, min_size=1, max_size=6).map(' '.join),
         'dm': mapped, 'FC_NFKC': st.one_of(st.sampled_from(['', '#']), points), 'NFKC_CF': st.one_of(st.sampled_from(['', '#']), points),
         'bmg': st.one_of(st.just(''), cp.map(hexa)), 'bpb': st.one_of(st.just('#'), cp.map(hexa)),
         'bpt': st.one_of(st.sampled_from('noc'), word), **{b: st.sampled_from('YN') for b in BOOLS}}
OPTIONAL = set(BOOLS) | set(CASES.values()) | {'bmg', 'FC_NFKC', 'dm', 'JSN'}


BASE = {a: '0' for a in ATTRS} | dict.fromkeys(BOOLS, 'N') | dict.fromkeys(CASES.values(), '#') | dict(na='', nv='NaN', JSN='', dm='#', FC_NFKC='', NFKC_CF='#', bmg='', bpb='#')
FAMILIES = [list(BINARY.values()), list(CASEB.values()), list(CASES.values()), list(TOPB.values()), list(DECB.values()), list(DECT.values()), list(TOPT.values()),
            ['ccc', 'na', 'nv', 'scx', 'blk', 'jg'], ['dm', 'FC_NFKC', 'NFKC_CF'], ['bmg', 'bpb', 'bpt', 'bc', 'Bidi_M', 'Bidi_C'], ['InSC', 'InPC']]


@st.composite
def groups(draw):
    """(group attributes, [char attributes]); some attributes are drawn, in a drawn place, the others plain and on the group."""
    n = draw(st.integers(1, 3))
    cps = draw(st.lists(cp, min_size=n, max_size=n))
    some = draw(st.lists(st.sampled_from(FAMILIES).flatmap(st.sampled_from), min_size=1, max_size=14, unique=True))
    group, chars = dict(BASE), [{} for _ in range(n)]
    for a in some:
        where = draw(st.sampled_from(['both', 'char', 'group'] + ['nowhere'] * (a in OPTIONAL)))
        if where in ('both', 'group'): group[a] = draw(ATTRS[a])
        else: del group[a]
        if where in ('both', 'char'):
            for ch in chars: ch[a] = draw(ATTRS[a])
            if where == 'both' and n > 1: del chars[-1][a]
    for ch, c in zip(chars, cps): ch['cp'] = hexa(c)
    return group, chars


def crowd(seed):
    """A group of up to four characters, any part of all the properties drawn, each in a place of its own."""
    r = random.Random(seed)
    w = lambda: ''.join(r.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_' if r.random() < .8 else '_') for _ in range(r.choice([r.randint(1, 9), r.randint(1, 9), 40])))
    c = lambda: r.choice([r.randrange(0x80), r.randrange(0x3000), r.randrange(0x10000), r.randrange(0x110000), r.choice([0, 0xfff, 0x1000, 0xffff, 0x10000, 0x100000, 0x10ffff])])
    pts = lambda: ' '.join(hexa(c()) for _ in range(r.choice([1, 1, 2, 3, r.randint(1, 18), r.randint(1, 40)])))
    kind = {**{a: w for a in ATTRS}, **{a: lambda: r.choice('YN') for a in BOOLS}, **{a: lambda: r.choice(['#', pts(), pts()]) for a in CASES.values()},
            'JSN': lambda: r.choice(['', w()]), 'ccc': lambda: str(r.randint(0, 254)), 'na': lambda: r.choice(['', 'X-#', '#', '#-' + w(), w() + ' # ' + w() + '#', w(), w() + ' ' + w() + '-' + w()]),
            'nv': lambda: r.choice(['NaN', str(r.randint(-10, 99)), str(10 ** r.randint(0, 16)), f'{r.randint(-9, 99)}/{r.randint(1, 400)}']),
            'scx': lambda: ' '.join(w() for _ in range(r.randint(1, 5))), 'dm': lambda: r.choice(['#', pts(), pts()]), 'FC_NFKC': lambda: r.choice(['', '#', pts(), pts()]),
            'NFKC_CF': lambda: r.choice(['', '#', pts(), pts()]), 'bmg': lambda: r.choice(['', hexa(c())]), 'bpb': lambda: r.choice(['#', hexa(c())]), 'bpt': lambda: r.choice('noc')}
    n, p = r.randint(1, 4), r.choice([.05, .3, .7])
    group, chars = dict(BASE), [{'cp': hexa(c())} for _ in range(n)]
    for a in ATTRS:
        if r.random() >= p: continue
        where = r.choice(['both', 'char', 'group', 'some'] + ['nowhere'] * (a in OPTIONAL))
        if where == 'group' or where in ('both', 'some'): group[a] = kind[a]()
        else: del group[a]
        for ch in chars:
            if where in ('both', 'char') or where == 'some' and r.random() < .5: ch[a] = kind[a]()
    for ch in chars:
        order = list(ch.items()); r.shuffle(order)
        ch.clear(); ch.update(order)
    return group, chars


def smaller(case, fails):
    """The same failing group with as little of it as still fails."""
    group, chars = case
    for i in reversed(range(len(chars))):
        rest = chars[:i] + chars[i + 1:]
        if rest and fails((group, rest)): chars = rest
    for a in list(group):
        if group[a] == BASE[a]: continue
        g = {**group, a: BASE[a]}
        if fails((g, chars)): group = g
    for i in range(len(chars)):
        for a in list(chars[i]):
            if a == 'cp' or a not in group: continue
            rest = [{k: v for k, v in ch.items() if j != i or k != a} for j, ch in enumerate(chars)]
            if fails((group, rest)): chars = rest
    return group, chars


def expect(get, c):
    s = lambda v: ''.join(chr(int(x, 16)) for x in v.split(' '))
    me = lambda v: chr(c) if v in ('', '#') else s(v)
    yes = lambda a: get(a) == 'Y'
    want = {**{f: (get(a),) for f, a in TOPT.items()}, **{f: (yes(a),) for f, a in TOPB.items()}}
    want['cp'] = (hexa(c),)
    want['codePoint'] = (c,)
    want['combiningClass'] = (int(get('ccc')),)
    want['name'] = (get('na').replace('#', hexa(c)),)
    nv = get('nv')
    want['numericValue'] = (None,) if nv == 'NaN' else (number_of(nv),)
    want['scriptExtensions'] = (get('scx').split(' '),)
    want['block'] = (get('blk').replace('_', ' '),)
    want['joiningGroup'] = (get('jg').replace('_', ' '),)
    b = 'bidiProperties.'
    want[b + 'bidiClass'] = (get('bc'),)
    want[b + 'bidiMirrored'], want[b + 'bidiControl'] = (yes('Bidi_M'),), (yes('Bidi_C'),)
    want[b + 'bidiPairedBracketType'] = (get('bpt'),)
    want[b + 'bidiMirroredGlyph'] = (int(get('bmg'), 16) if get('bmg') else c,)
    want[b + 'bidiPairedBracket'] = (c if get('bpb') == '#' else int(get('bpb'), 16),)
    for f, a in BINARY.items(): want['binaryProperties.' + f] = (yes(a),)
    for f, a in CASEB.items(): want['caseProperties.' + f] = (yes(a),)
    for f, a in CASES.items(): want['caseProperties.' + f] = (me(get(a)),)
    k = get('NFKC_CF')
    want['caseProperties.nkfcCasefold'] = (chr(c) if k == '#' else s(k) if k else '',)
    d = 'decompProperties.'
    for f, a in DECT.items(): want[d + f] = (get(a),)
    for f, a in DECB.items(): want[d + f] = (yes(a),)
    want[d + 'decomposition'] = (None if get('dm') in ('', '#') else s(get('dm')),)
    want[d + 'nfkcFullClosure'] = (None if get('FC_NFKC') in ('', '#') else s(get('FC_NFKC')),)
    want[d + 'nfkcCaseFolded'] = (chr(c),) if k == '#' else (s(k),) if k else (None, '')
    want['indicProperties.syllabicCategory'], want['indicProperties.positionalCategory'] = (get('InSC'),), (get('InPC'),)
    return want


def number_of(nv):
    a, _, b = nv.partition('/')
    return Fraction(int(a), int(b or 1))


def close(got, want):
    if isinstance(want, Fraction):
        return not isinstance(got, bool) and isinstance(got, (int, float, Fraction)) and got == got and (got == want or (want.denominator != 1 and float(got) == float(want)))
    if isinstance(want, list): return not isinstance(got, str) and list(got) == want
    return got == want and isinstance(got, type(want))


def load(ctx):
    global CharacterData
    CharacterData = env.mod('CharacterData').CharacterData


def follow(obj, path):
    for p in path.split('.'): obj = getattr(obj, p)
    return obj


def run(ctx):
    def one(g):
        group, chars = g
        x = ET.Element('group', dict(group))
        for ch in chars: ET.SubElement(x, 'char', dict(ch))
        x = ET.fromstring(ET.tostring(x))           # what a parser makes of the file
        before = ET.tostring(x)
        records = [CharacterData(ch, x) for ch in x]
        if len(records) > 1:
            # what is done to the lists of one record stays there
            spare = CharacterData(x[0], x)
            for part in (spare, *vars(spare).values()):
                for v in vars(part).values() if hasattr(part, '__dict__') else ():
                    if isinstance(v, list): v.append('Mine')
        if ET.tostring(x) != before: raise Violation('reading the records changed the elements')
        for rec, ch in zip(records, chars):
            get = lambda a: ch.get(a, group.get(a, ''))
            c = int(ch['cp'], 16)
            for f, want in expect(get, c).items():
                try: got = follow(rec, f)
                except AttributeError: raise Violation(f'U+{c:04X}: the record has no {f}')
                if not any(close(got, w) for w in want): raise Violation(f'U+{c:04X}: {f} is {got!r}, the file says {want[0]!r}')
            ctx.case((sorted(ch.items()), sorted(group.items())), len(ch) > 1 or any(v != BASE[a] for a, v in group.items()), label='characters',
                     sample={'char': dict(list(ch.items())[:12]), 'group': dict(list(group.items())[:12])})
    ctx.given('generated groups', groups(), one, (1500, 20000))

    def many(seed):
        case = crowd(seed)
        try: one(case)
        except Violation:
            def fails(g):
                try: one(g)
                except Violation: return True
                return False
            case = ctx.current = smaller(case, fails)
            one(case)
            raise
    ctx.many('groups with many properties', many, (3000, 40000))
