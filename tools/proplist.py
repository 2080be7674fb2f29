US = 'UnicodeData/UnicodeSet.py'
T_SET = 'property-based testing (Hypothesis): generated histories against a big-integer set model, plus exhaustive small universes'

prop('C01', 'Set mutations compute exactly the mathematical set',
     'After any sequence of constructions, single-code-point, range, whole-set and bulk mutations on any number of UnicodeSets, each set '
     'contains exactly the code points that the same sequence gives in ordinary set algebra over U+0000..U+10FFFF. '
     'A bulk operation never changes its argument.',
     ['histories', 'inputs'], 'every finite history of mutator calls with every code point, range and set argument',
     'The tests replay a few fixed sets; merge, split and boundary cases depend on how the ranges of both operands interleave.',
     [US], [('range-list merge algorithms', f'{US}: _retainList, _addList, _exclusiveOrList'), ('in-place edits', f'{US}: add, addRange, complement')],
     ['getRangeCount/getRangeStart/getRangeEnd after every call'], T_SET,
     'Searches histories of up to 30 calls clustered on a 12-code-point neighbourhood, and all pairs of subsets of 5 code points at four places.',
     [('list', 'alternating starts and limits, closed by 0x110000', f'{US}: UnicodeSet.list')])

prop('C02', 'Equal membership is equal sets, whatever the history',
     'Two UnicodeSets compare equal, print alike and report the same ranges if and only if they have the same members, however each was '
     'built; the reported ranges are ascending, non-empty, disjoint and never adjacent.',
     ['histories'], 'every pair of histories, leading to the same or to different members',
     'Equality is tested on a few literal sets; that every construction path ends in the one canonical form is a statement about all histories.',
     [US], [('canonical range list', f'{US}: every mutator'), ('list comparison', f'{US}: __eq__, __ne__, __str__')],
     ['==, !=, str, getRanges'], T_SET,
     'Builds each generated membership along a second, independent path (eight methods) and flips single members for the converse.')

prop('C03', 'All queries on a set agree with its members',
     'Membership of a code point or range, size, range count and bounds, index-of, character-at, iteration order, range list and printed '
     'form of a UnicodeSet all describe the same ascending sequence of members; indexOf and charAt are inverse, give no answer outside '
     'the set, and no query changes the set.',
     ['inputs', 'histories'], 'every set and every query point, range or index, including ones outside the set and the code space',
     'Tests query a few members of a few sets; searches fail at particular positions of a boundary in the list.',
     [US], [('binary search', f'{US}: _findCodePoint, contains'), ('linear scans', f'{US}: indexOf, charAt, size, __iter__, getRanges')],
     ['contains, in, size, indexOf, charAt, iter, getRanges, str'], T_SET,
     'Queries every range edge and generated points of generated sets; exhaustive over all subsets of 8 code points at three places.')

prop('C04', 'Set operators are pure; mutators chain; no hidden sharing',
     'union, intersection, difference, symmetric difference, their operators and copying return a new set with the right members and leave '
     'both operands unchanged; in-place operators and every mutator return the very set they changed. '
     'Later changes to any set never show in another, even when a set is its own operand, and the usual algebra laws hold.',
     ['histories', 'inputs'], 'every sequence of operations on every pool of sets, aliased operands included',
     'Tests check one operation at a time on fresh sets; sharing shows only when operands are mutated afterwards.',
     [US], [('copy construction', f'{US}: __init__, union, intersection, difference, symmetric_difference'), ('in-place operators', f'{US}: __ior__, __iand__, __isub__, __ixor__')],
     ['every set of the pool after every step'], T_SET,
     'Histories of up to 16 steps over a growing pool (copies by constructor, copy, deepcopy and pickle too), all sets compared with their models after each step; 20 algebra laws on triples.')

prop('C05', 'Out-of-range arguments are pinned and never corrupt a set',
     'Code points below U+0000 or above U+10FFFF passed to a UnicodeSet mutator or constructor act as the nearest legal code point, reversed '
     'or empty ranges act as empty ranges, and values outside the code space are never members; arguments that are not numbers, '
     'ranges or sets are refused with an error (TypeError from the constructor, complement and contains) and change nothing. Whatever integers, ranges and sets it is given, the set stays within U+0000..U+10FFFF and well formed.',
     ['inputs', 'histories'], 'every int, reversed or partly or wholly out-of-range range, and wrong-typed argument',
     'The tests pass legal code points only.',
     [US], [('pinning', f'{US}: _pinCodePoint and its callers')], ['ranges after every call'], T_SET,
     'Generated call sequences with arguments around and far beyond both ends of the code space.')


T_TRIE = 'property-based testing (Hypothesis): generated tries against the map each was built from'
T_SWEEP = 'exhaustive generated sweep of all 1,114,112 code points against an independent Unicode 13 table, plus generated relations'
UT, CT = 'UnicodeData/Utrie2.py', 'UnicodeData/CPTrie.py'
CP, BP, CA = 'UnicodeData/CharProps.py', 'UnicodeData/BidiProps.py', 'UnicodeData/CaseProps.py'
SWEEP_WHY = 'The tests compare samples and need data files that are not there; one wrong table entry or bit test is wrong for a handful of code points only.'
ALL = 'every code point U+0000..U+10FFFF'

prop('C06', 'UTrie2 lookup returns the stored value for every code point',
     'Looking up any code point in a well-formed frozen 16-bit UTrie2 gives the value the trie was built with for that code point, whatever '
     'its block sharing, null blocks and high start; values above U+10FFFF give the error value.',
     ['inputs'], 'every well-formed trie and every non-negative lookup value',
     'The tests look at the three built-in tries only, which share one layout.',
     [UT], [('index arithmetic per region', f'{UT}: UTrie2.get')], ['UTrie2.get'], T_TRIE,
     'Serialises generated maps with an independent builder (overlapping and shared blocks, any high start) and looks up every edge; complete sweeps of some.')

prop('C07', 'UTrie2 enumeration yields the maximal equal-valued ranges',
     'Enumerating a UTrie2 over any interval, with any value function, yields in ascending order exactly the maximal ranges of code points '
     'with equal (mapped) values: they cover the interval, agree with lookup, and neighbours differ.',
     ['inputs'], 'every well-formed trie, interval and pure value function',
     'The tests enumerate the built-in tries from 0; the shortcuts for repeated and null blocks go wrong for particular layouts and starts.',
     [UT], [('block shortcuts and range merging', f'{UT}: UTrie2.enumerator')], ['ranges and values yielded'], T_TRIE,
     'Generated tries as for C06, several intervals each (unaligned, surrogate area, beyond high start), five value functions.')

prop('C08', 'CPTrie lookup returns the stored value for every code point',
     'A code point trie read from its serialised form, or built from arrays, gives for each code point the value it was built with: fast and '
     'small type, 8-, 16- and 32-bit values, any high start, 16- and 18-bit block indexes. Values above U+10FFFF give the error value.',
     ['inputs'], 'every serialised trie and every non-negative lookup value',
     'The tests use one built-in trie; the small type, other widths and 18-bit indexes never occur in them.',
     [CT], [('header decoding', f'{CT}: createFromData'), ('index arithmetic per type', f'{CT}: get')], ['CPTrie.createFromData, get'], T_TRIE,
     "Tries are serialised by ICU 74's own builder from generated maps; all edges are looked up, some tries completely.")

prop('C09', 'CPTrie enumeration yields the maximal equal-valued ranges',
     'Enumerating a code point trie over any interval yields in ascending order exactly the maximal ranges of code points with equal '
     'values: they cover the interval, agree with lookup, and neighbours differ.',
     ['inputs'], 'every serialised trie and interval',
     'The tests enumerate one built-in trie; the shortcuts for repeated and null blocks go wrong for particular layouts and starts.',
     [CT], [('block shortcuts and range merging', f'{CT}: enumerator')], ['ranges and values yielded'], T_TRIE,
     "Tries serialised by ICU 74's builder from generated maps, several intervals each, both types and all widths.")

prop('C10', 'General category and character classification are Unicode 13',
     'For every code point the general category is the one of Unicode 13, and each classification predicate (letter, digit, space, control, '
     'identifier, printable, punctuation and the others) holds exactly when its definition in terms of that category, of the binary '
     'properties and of the listed special code points says so.',
     ['inputs'], ALL + ', every predicate', SWEEP_WHY, [CP, 'UnicodeData/CharPropsData.py', 'UnicodeData/uchar_h.py'],
     [('property word decoding', f'{CP}: getGeneralCategory, gcMask'), ('predicates', f'{CP}: isLower .. isJavaIDPart')],
     ['getGeneralCategory and the is... functions'], T_SWEEP,
     'Complete for the category and 29 predicates, definitions written from the ICU documentation.')

prop('C11', 'Numeric type, numeric value and digit value are Unicode 13',
     'For every code point the numeric type, numeric value and decimal digit value are those of Unicode 13, None or -1 standing for no value; '
     'every encoded numeric value decodes to the number it stands for, and the digits of each decimal system count 0 to 9.',
     ['inputs'], ALL + ' and every encoded value', SWEEP_WHY, [CP, 'UnicodeData/uprops_h.py'],
     [('numeric value decoding', f'{CP}: numericValueFromProps, getNumericValue, getNumericType, digitValue')],
     ['getNumericValue, getNumericType, digitValue, numericValueFromProps'], T_SWEEP,
     'Complete over code points and over all encoded values.')

prop('C12', 'Age, script, block, width, breaks, decomposition type are Unicode 13',
     'For every code point the age, script, block, East Asian width, line, sentence, word and grapheme cluster break classes and '
     'decomposition type are those of Unicode 13.',
     ['inputs'], ALL, SWEEP_WHY, [CP, 'UnicodeData/CharPropsData.py', 'UnicodeData/uprops_h.py'],
     [('bit fields of the property vectors', f'{CP}: getAge, getScript, getBlock, ...')], ['the nine getters'], T_SWEEP, 'Complete over code points.')

prop('C13', 'Binary and emoji properties are Unicode 13',
     'For every code point each of the 32 binary properties and 6 emoji properties holds exactly when it does in Unicode 13, read singly or as '
     'a whole column; properties and columns that do not exist read as absent.',
     ['inputs'], ALL + ', every property', SWEEP_WHY, [CP, 'UnicodeData/uprops_h.py'],
     [('bit tests', f'{CP}: getBinaryProp, getUnicodeProperties, isEmoji...')], ['getBinaryProp, getUnicodeProperties, emoji predicates'], T_SWEEP,
     'Complete over code points for all 38 properties.')

prop('C14', 'Bidi class, mirroring, brackets and controls are Unicode 13',
     'For every code point the bidi class, mirrored property, mirror image, paired bracket and its type, bidi control and join control '
     'properties are those of Unicode 13. Mirroring and bracket pairing are involutions, the identity where nothing is defined.',
     ['inputs'], ALL, SWEEP_WHY, [BP, 'UnicodeData/BidiPropsData.py'],
     [('bit fields and mirror table', f'{BP}: getMirror, getPairedBracket, ...')], ['the seven functions'], T_SWEEP, 'Complete over code points.')

prop('C15', 'Joining types and joining groups are Unicode 13',
     'For every code point the Arabic joining type and joining group are those of Unicode 13.',
     ['inputs'], ALL, SWEEP_WHY, [BP, 'UnicodeData/BidiPropsData.py'],
     [('joining group arrays', f'{BP}: getJoiningGroup'), ('bit field', f'{BP}: getJoiningType')], ['getJoiningType, getJoiningGroup'], T_SWEEP,
     'Complete over code points.')

prop('C16', 'Simple case mappings are Unicode 13',
     'For every code point the simple lower-, upper- and titlecase mappings are those of Unicode 13, the code point itself where none is '
     'defined; mapping twice the same way changes nothing more.',
     ['inputs'], ALL, SWEEP_WHY, [CA, 'UnicodeData/CasePropsData.py'],
     [('deltas and exception slots', f'{CA}: toLower, toUpper, toTitle')], ['toLower, toUpper, toTitle'], T_SWEEP, 'Complete over code points.')

prop('C17', 'Full case mappings are Unicode 13',
     'For every code point the full lower-, upper- and titlecase mappings are the unconditional, language-independent strings of Unicode 13, '
     'the simple mapping where no special one is defined and the character itself where there is neither.',
     ['inputs'], ALL, SWEEP_WHY, [CA, 'UnicodeData/CasePropsData.py'],
     [('exception slots and full mapping strings', f'{CA}: toFullLower, toFullUpper, toFullTitle')], ['toFullLower, toFullUpper, toFullTitle'], T_SWEEP,
     'Complete over code points, plus generated strings mapped character by character.')

N2, CN, ID, LP = 'UnicodeData/Normalizer2.py', 'UnicodeData/CharNames.py', 'UnicodeData/ICUDataFile.py', 'UnicodeData/LayoutProps.py'
T_FILE = 'property-based testing (Hypothesis): generated data files against what they were generated from, plus exhaustive sweeps against ICU 74'
NODATA = 'The tests need a data file that is not in the repository, and look at a few characters of it.'

prop('C18', 'Full and raw decompositions follow the normalization data',
     'For every code point the full and raw decompositions (canonical, compatibility, case-folding and IDNA data, built in or read from a data '
     'file) are exactly the ones the data define, with none for a character that does not decompose; Hangul syllables decompose '
     'arithmetically, and repeated raw decomposition ends in the full one.',
     ['inputs'], ALL + ' and every well-formed normalization data file',
     NODATA, [N2, 'UnicodeData/Norm2NFCData.py'],
     [('norm16 ranges and mappings', f'{N2}: getDecomposition, getRawDecomposition'), ('surrogate pairs', f'{N2}: stringFromData'),
      ('file reading', f'{N2}: createFromFileData')], ['getDecomposition, getRawDecomposition, norm16 predicates'], T_FILE,
     'Complete for canonical (Unicode 13 table) and four ICU 74 data files; generated data cover every form of mapping.')

prop('C19', 'Character names map to and from code points as the data say',
     'For every code point and name choice the name is the one the names file defines, algorithmic names (hexadecimal and factorised) '
     'included, and empty where there is none; the extended choice labels other code points <category-code>. Looking up a name gives the '
     'first code point that has it, and 0xFFFFFFFF for a name nobody has.',
     ['inputs'], ALL + ', every name choice, every name, every well-formed names file',
     NODATA, [CN], [('token and length decoding', f'{CN}: Tokens.expandString, Group.expandGroupLengths'),
                    ('algorithmic names', f'{CN}: AlgorithmicRange'), ('group search', f'{CN}: getGroup')],
     ['CharNames.getCharName, charFromName'], T_FILE, 'Complete for the ICU 74 names; generated files cover all encodings and range kinds.')

prop('C20', 'Iterating over names yields every named character once, in order',
     'Iterating over the character names of any kind yields each code point that has such a name exactly once, in ascending order, with '
     'that name, and nothing else, however the algorithmic ranges lie among the others.',
     ['inputs'], 'every well-formed names file and name choice',
     NODATA, [CN], [('merging groups and algorithmic ranges', f'{CN}: nameIterator')], ['CharNames.nameIterator'], T_FILE,
     'The whole ICU 74 names file for three choices and generated files with ranges of any size and place.')

prop('C21', 'Layout properties are the ones the data file stores',
     'For every code point the Indic positional category, Indic syllabic category and vertical orientation are the ones stored for it in '
     'the layout data file, by lookup and by enumeration alike.',
     ['inputs'], ALL + ' and every well-formed layout data file', NODATA, [LP, CT],
     [('trie boundaries in the file', f'{LP}: module body')], ['getInPC, getInSC, getVO and the three tries'], T_FILE,
     'Complete for the ICU 74 data against ICU itself; generated files with tries of all types.')

prop('C22', 'Every item of an ICU data package is found and read unchanged',
     'Every item of a well-formed data package is found under its name, with its header fields, contents and strings exactly as stored, '
     'whatever the number, names, header lengths and placement of items; a name not in the package is reported as a missing key.',
     ['inputs'], 'every well-formed package', NODATA, [ID], [('table of contents', f'{ID}: ICUData._populateData, getName'), ('headers', f'{ID}: getDataOffsetAndHeader')],
     ['ICUData.getDataOffset, getDataOffsetAndHeader, getData, getString'],
     'property-based testing (Hypothesis): generated packages read back', 'Packages of 0 to 12 items with generated names, headers, contents and gaps.')

T_UTIL = 'property-based testing (Hypothesis) and exhaustive sweeps against the definitions in the Unicode Standard'
prop('C23', 'Surrogate, noncharacter and bit utilities follow their definitions',
     'Every code point is classified as surrogate, lead, trail or noncharacter as Unicode defines it; supplementary code points and '
     'surrogate pairs convert into each other as in UTF-16; the highest set bit, the arithmetic shift of a word of any width to its top '
     'bits and the listing of code points in hexadecimal are exact.',
     ['inputs'], ALL + ', every pair of surrogates, every word of up to 64 bits',
     'The tests take a few values of each function.', ['UnicodeData/Utilities.py'],
     [('the functions themselves', 'UnicodeData/Utilities.py: whole module')], ['return values'], T_UTIL,
     'Complete over code points, surrogate pairs and words of up to 8 bits; generated words of up to 64 bits.')

TD = 'UnicodeData/UCDTypeDictionaries.py'
prop('C24', 'Values of enumerated properties are named as in Unicode',
     'Every dictionary of value names gives each number a property can have in Unicode 13 its own standard name, different from the others '
     'and nothing else, and a character\'s value from the property getters is named by it as the Unicode Character Database names the '
     'value of that character.',
     ['inputs'], ALL + ' and every value of every enumerated property',
     'No test looks at the dictionaries.', [TD, 'UnicodeData/Blocks.py', 'UnicodeData/Scripts.py', 'UnicodeData/LayoutTypes.py', 'UnicodeData/Boundaries.py'],
     [('name dictionaries', f'{TD}: the dictionaries; the same ones in the modules per property')], ['dictionary lookup of a getter\'s value'],
     'property-based testing (Hypothesis) with complete enumeration of the dictionaries against ICU 74\'s names',
     'Every value of 32 dictionaries, and generated code points through 13 getters.')

prop('C25', 'Symbolic constants have the values of ICU headers',
     'Every symbolic constant for property values, masks and selectors has the number ICU\'s headers of Unicode 13 give it, and so have the '
     'constants of ICU\'s data formats (trie shifts and masks, property bit fields, file indexes); any '
     'combination of general category masks holds for a code point exactly if its category is in one of them.',
     ['inputs'], 'every constant, every combination of masks and every code point',
     'Tests use a few constants and never combine masks.', ['UnicodeData/uchar_h.py', 'UnicodeData/GeneralCategories.py', 'UnicodeData/Blocks.py', 'UnicodeData/Scripts.py'],
     [('constants', 'UnicodeData/*_h.py, Blocks.py, Scripts.py, GeneralCategories.py, ...'), ('masks', 'UnicodeData/CharProps.py: gcMask')],
     ['module attributes; mask & gcMask(category)'],
     'property-based testing (Hypothesis) with complete enumeration of the constants against a C compiler\'s reading of the headers',
     'Every constant of every module; generated combinations of masks.')

prop('C26', 'Character records read from the UCD XML say what the XML says',
     'Every field of the record of a character read from the Unicode Character Database in XML is the value of the attribute of that '
     'character, or of its group where the character leaves it out, converted to its type (code points, sequences, numbers, booleans) with "#" '
     'standing for the character itself; every character listed gets its own record.',
     ['inputs'], 'every well-formed UCD XML group and character',
     'The tests read one fixed file, which is not part of the repository, through the getters they compare.',
     ['UnicodeData/CharacterData.py', 'UnicodeData/BinaryProperties.py', 'UnicodeData/CaseProperties.py', 'UnicodeData/DecompProperties.py',
      'UnicodeData/BidiProperties.py', 'UnicodeData/IndicProperties.py', 'UnicodeData/Characters.py', 'UnicodeData/UCDProperties.py'],
     [('attribute lookup and conversion', 'UnicodeData/UCDProperties.py'), ('records', 'UnicodeData/CharacterData.py: CharacterData.__init__')],
     ['attributes of the records'], 'property-based testing (Hypothesis): generated XML against the values it was written from',
     'Generated groups of characters with every attribute on either level.')

HP, MB = 'module_builder/HeaderToPtyhon.py', 'module_builder/ModuleBuilder.py'
prop('C27', 'C headers are translated to constants with the same values',
     'Translating an ICU C header to Python gives a module whose constants are those the header\'s #define lines and enumerators outside '
     'conditional parts (nested ones included) define, in value and in meaning of expressions (which may use names defined earlier) and implicit enumerator numbers; comments, macros with arguments, '
     'include guards and names marked as ignored give nothing.',
     ['inputs'], 'every header in the style of ICU\'s', 'No test runs the builder.', [HP],
     [('parsing lines, enumerations and comments', f'{HP}: HeaderToPython')], ['the constants of the executed output'],
     'property-based testing (Hypothesis): generated headers with known values; ICU\'s own headers against a C compiler',
     'Generated headers and seven headers of ICU 74.')

prop('C28', 'Data modules are built with exactly the arrays of the C sources',
     'Every array, scalar and trie that the module builder is asked to take from an ICU C data file appears in the Python module with exactly '
     'the numbers of the C source; building and installing a whole ICU source tree gives one module for each data file and header, holding what it '
     'defines, and copies the data file and licence unchanged; bad arguments build nothing.',
     ['inputs'], 'every ICU data file and source tree in ICU\'s format', 'No test runs the builder.', [MB, 'module_builder/ModuleInstaller.py'],
     [('extraction of arrays and tries', f'{MB}'), ('installation', 'module_builder/ModuleInstaller.py')], ['the built and installed modules'],
     'property-based testing (Hypothesis): generated C data and source trees, built, imported and compared',
     'Generated files of up to 70 numbers per array and generated source trees.')

prop('C29', 'Value-name dictionaries are built from the UCD file as written',
     'The module of value names built from the preparsed Unicode Character Database names every value of each property as its value line '
     'does, whatever the order of lines and the other lines around them; built from the Unicode 13 values it equals the dictionaries of the package.',
     ['inputs'], 'every well-formed preparsed UCD file', 'No test runs the builder.', ['module_builder/UCDReader.py', TD],
     [('value lines', 'module_builder/UCDReader.py')], ['the dictionaries of the built module'],
     'property-based testing (Hypothesis): generated files, built, imported and compared',
     'Generated selections and orders of the value lines of 17 dictionaries.')

prop('C30', 'Enumerating a Unicode property covers each interval in maximal runs',
     'Enumerating any property of Unicode 13 over any interval of code points gives consecutive runs that together are exactly the interval, '
     'each with the value every one of its code points has, and neighbouring runs have different values.',
     ['inputs'], 'every interval and every enumerable property',
     'The tests enumerate the whole code space in a test that needs a data file which is not there; intervals are not tested.',
     [UT, CT, CP, BP, CA, N2, LP], [('enumerators', f'{UT}: enumerator; {CT}: enumerator'), ('tries of the real data', 'UnicodeData/*Data.py')],
     ['the runs yielded by the enumerators of the property tries'],
     'property-based testing (Hypothesis): generated intervals and the whole code space against Unicode 13 tables',
     'Complete over the code space for each property; generated intervals clustered on run edges.',)

prop('C31', 'Answers do not depend on what was asked before or at the same time',
     'Every lookup, enumeration, normalization query, name and query of a set nobody changes gives the same answer whatever calls were made before it, in what order, by '
     'how many threads, whatever the caller does with lists it was given, and whichever other iterations are under way.',
     ['histories', 'schedules'], 'every sequence of calls, interleaving of iterations and set of threads',
     'Tests ask each question once, in one order, in one thread.', [CP, BP, CA, N2, CN, UT, CT, US],
     [('module-level tables and caches', 'all modules'), ('generators', f'{UT}, {CT}, {CN}: enumerators and iterators')], ['every public query, repeated'],
     'property-based testing (Hypothesis): generated call histories in separate processes, threads, interleaved iterations and chosen preemptions',
     'Generated histories of queries; every function asked over and over by four threads; complete tables compared after forward, backward and shuffled sweeps. Chosen schedules: one query stopped at each of its lines or bytecodes while another thread makes another.')

prop('C32', 'Property lookups decode any data of ICU\'s formats',
     'Whatever property data the data modules hold in ICU\'s formats, the case mappings, bidi, joining and general character properties of '
     'every code point are those the data encode, whichever of the encodings (deltas, exceptions with single or double slots, full mappings, '
     'mirror tables, joining group ranges, script escapes, encoded numbers, vector columns) they use.',
     ['inputs'], 'every well-formed case, bidi and character property data',
     'Tests only see Unicode 13, whose data use some encodings nowhere.', [CA, BP, CP],
     [('case exceptions', f'{CA}: getSlotValue, toLower ... toFullTitle'), ('mirrors and joining groups', f'{BP}: getMirrorFromProps, getJoiningGroup'),
      ('property words and vectors', f'{CP}: getters')], ['the public getters, with generated data modules'],
     'property-based testing (Hypothesis): generated data encoded independently, loaded and looked up',
     'Generated data of up to 9 code points with every field and encoding.')

prop('C33', 'Numbers above U+10FFFF have no character\'s properties',
     'Every property lookup, decomposition, simple case mapping and name lookup of a number above U+10FFFF answers as for no character: '
     'predicates are false, values are the default, mappings return the number itself, there is no decomposition and the name is empty. '
     'No such number is folded onto a code point and none makes a lookup fail.',
     ['inputs'], 'every integer above 0x10FFFF', 'No test asks for a number outside the code space.', [CP, BP, CA, N2, CN, LP, UT, CT],
     [('limits of the lookups', f'{UT}: getCodePointOffset; {CT}: get'), ('lookups that work the index out themselves', f'{CP}: getUnicodeProperties; {CN}: _getName')],
     ['the public lookups, with numbers above U+10FFFF'],
     'property-based testing (Hypothesis): generated numbers, against the answers for no character',
     'Every number in U+110000..U+110FFF, generated ones up to 2^40.')

prop('C34', 'Modules can be imported alone and in any order',
     'Every module of the package can be imported on its own, and any modules in any order and by any form of import; each then holds the '
     'same and answers the same. No import changes what another module holds, and a constant that several modules define under one name '
     'has the same value in all of them.',
     ['histories'], 'every sequence of imports of modules of the package',
     'The tests import the modules in one fixed order, in one process.', ['UnicodeData/'],
     [('imports between the modules', 'head of every module'), ('tables built when a module is imported', f'{CN}, {N2}, {LP}, {CP}: module level')],
     ['import of a module, its public names, its lookups'],
     'property-based testing (Hypothesis): generated import sequences in fresh processes, compared with each module alone',
     'Every module alone; generated sequences of up to all modules, in four forms of import.')

prop('C35', 'A package built and installed from ICU sources answers with their data',
     'Once the data modules are built from an ICU source and build tree and installed into the package, every lookup of the package (case '
     'mappings, bidi, joining, general, layout properties, names, value names, constants, version) answers what the data in that tree say, '
     'whichever well-formed property data of ICU\'s formats it holds; nothing of an earlier build shows through.',
     ['inputs'], 'every well-formed ICU source and build tree',
     'No test builds anything, and the tests see the data modules in the repository only.', [MB, 'module_builder/HeaderToPtyhon.py', 'module_builder/UCDReader.py', 'module_builder/ModuleInstaller.py', CP, BP, CA, CN, LP],
     [('C sources to modules', f'{MB}: build'), ('installation', 'module_builder/ModuleInstaller.py: install'), ('the modules reading what was built', 'imports of *Data, *_h modules and Data/icudata.dat')],
     ['the public lookups of the package after build and install'],
     'property-based testing (Hypothesis): generated source trees built, installed, imported and looked up, against the generated data',
     'Trees with generated data of up to 9 entries of each kind, and of real size.')
