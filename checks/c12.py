"""Age, script, block, width, segmentation classes and decomposition type."""
from vp import env, ucd
from vp.core import Violation

PID = 'C12'
RULE = ('A case is one call of one property getter on one code point, over all of U+0000..U+10FFFF in an order drawn from the seed. '
        "Non-trivial: the expected value is not the property's default for unassigned code points.")
ASSUME = ['oracle/unicode13.json.gz gives Unicode 13, with the numbering of ICU\'s enums.']


def load(ctx):
    global P
    P = env.mod('CharProps')


def run(ctx):
    age = [list(v) + [0, 0] for v in ucd.values('age')]
    J, V = ucd.Job, ucd.values
    ucd.sweep_all(ctx, [
        J('getAge', P.getAge, age, [0, 0, 0, 0], norm=list), J('getScript', P.getScript, V('script'), 103), J('getBlock', P.getBlock, V('block'), 0),
        J('getEastAsianWidth', P.getEastAsianWidth, V('ea'), 0), J('getLineBreak', P.getLineBreak, V('lb'), 0),
        J('getSentenceBreak', P.getSentenceBreak, V('sb'), 0), J('getWordBreak', P.getWordBreak, V('wb'), 0),
        J('getGraphemeClusterBreak', P.getGraphemeClusterBreak, V('gcb'), 0), J('getDecompType', P.getDecompType, V('dt'), 0)])
    ctx.exhaustive = True
