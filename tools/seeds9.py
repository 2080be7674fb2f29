JT, CDIR = 'UnicodeData/JoiningTypesAndGroups.py', 'UnicodeData/CharDirection.py'
UTIL = 'UnicodeData/Utilities.py'

seed('import-utilities-first', 'C34', [(UTIL, """# import struct
import typing
""", """import typing

from .Utrie2 import UTrie2Shifts
"""), (UTIL, """_firstNonBMP = 0x10000
""", """_firstNonBMP = UTrie2Shifts.OMITTED_BMP_INDEX_1_LENGTH << UTrie2Shifts.SHIFT_1
"""), (UT, """from .Utilities import isSurrogate, isSurrogateLead  #, isSurrogateTrail

class UTrie2(object):
    SHIFT_1 = 6 + 5
    SHIFT_2 = 5
    SHIFT_1_2 = SHIFT_1 - SHIFT_2

    OMITTED_BMP_INDEX_1_LENGTH = 0x10000 >> SHIFT_1
    CP_PER_INDEX_1_ENTRY = 1 << SHIFT_1
""", """class UTrie2Shifts(object):
    SHIFT_1 = 6 + 5
    SHIFT_2 = 5
    SHIFT_1_2 = SHIFT_1 - SHIFT_2

    OMITTED_BMP_INDEX_1_LENGTH = 0x10000 >> SHIFT_1
    CP_PER_INDEX_1_ENTRY = 1 << SHIFT_1

from .Utilities import isSurrogate, isSurrogateLead  #, isSurrogateTrail

class UTrie2(UTrie2Shifts):
    SHIFT_1 = UTrie2Shifts.SHIFT_1
    SHIFT_2 = UTrie2Shifts.SHIFT_2
    SHIFT_1_2 = UTrie2Shifts.SHIFT_1_2
    OMITTED_BMP_INDEX_1_LENGTH = UTrie2Shifts.OMITTED_BMP_INDEX_1_LENGTH
    CP_PER_INDEX_1_ENTRY = UTrie2Shifts.CP_PER_INDEX_1_ENTRY
""")], 'importing Utilities before anything that uses the tries', 'the import fails: the two modules import each other', """
import subprocess, sys
for first in ('Utilities', 'Utrie2', 'CharProps'):
    assert subprocess.run([sys.executable, '-c', f'import UnicodeData.{first}']).returncode == 0, first
""")

seed('import-trie-pads-data', 'C34', [(UT, """        self.index = index
        self.indexLength = indexLength
""", """        index += [initialValue] * ((-len(index) // self.DATA_GRANULARITY) % self.DATA_GRANULARITY)
        self.index, self.indexLength = index, indexLength
""")], 'holding the trie array of a data module whose length is no multiple of 16 when the property module is imported', 'the import of the properties changes the data module', """
import importlib
for d, n, p in (('BidiPropsData', 'ubidi_props_trieIndex', 'BidiProps'), ('CasePropsData', 'ucase_props_trieIndex', 'CaseProps'), ('CharPropsData', 'propsTrie_index', 'CharProps')):
    m = importlib.import_module('UnicodeData.' + d)
    before = {k: len(v) for k, v in vars(m).items() if isinstance(v, list)}
    importlib.import_module('UnicodeData.' + p)
    assert before == {k: len(v) for k, v in vars(m).items() if isinstance(v, list)}, d
""")

seed('import-other-decomposition', 'C34', [('UnicodeData/DecompositionType.py', """U_DT_SMALL = 12             # [sml]
""", """U_DT_SMALL = 13             # [sml]
"""), ('UnicodeData/DecompositionType.py', """U_DT_SQUARE = 13            # [sqr]
""", """U_DT_SQUARE = 12            # [sqr]
""")], 'taking decomposition types from both modules that define them', 'two of them are exchanged in one', """
from UnicodeData import uchar_h, DecompositionType as d
for k, v in vars(d).items():
    if k.startswith('U_DT_'): assert getattr(uchar_h, k) == v, k
""")

seed('import-nfc-data-split', 'C34', [(N2, """        return Normalizer2(trie, norm2_nfc_data_indexes, norm2_nfc_data_extraData)
""", """        indexes = norm2_nfc_data_indexes
        indexes += [0] * (IX_BLOCK - len(indexes) % IX_BLOCK)
        return Normalizer2(trie, indexes, norm2_nfc_data_extraData)
"""), (N2, """IX_COUNT = 20
""", """IX_COUNT = 20
IX_BLOCK = 8  # indexes come in blocks of eight
""")], 'using Norm2NFCData on its own and after Normalizer2 has been imported', 'its list of indexes grows', """
import icudemo; icudemo.use()
from UnicodeData import Norm2NFCData as d
n = len(d.norm2_nfc_data_indexes)
import UnicodeData.Normalizer2
assert len(d.norm2_nfc_data_indexes) == n
""", ('icudemo.py',))
