"""C14: alignments partition every text."""
from . import C15
from .common import *

RULE = ('save_match replaces a segment by what is left of the match, the match and what is right of it, start, stop and length agreeing for every text, '
        'and drops a part only if it is empty in all texts; the first segment is each whole text; every match handed to save_match lies inside its '
        'segment in all texts, is not empty and has the same length in all of them; every match has a number cell of its own, shared by the two lists '
        'of a transposed match, and number_matches counts the matched segments of the first list from 1 in order')
ASSUME = ['lists behave (C20); text positions stay below 2^40; malloc succeeds',
          'segments next to a match are never matched themselves, since matches are maximal']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries: contracts of each alignment routine, proved separately and composed'


def run(ctx):
    C15.decide(ctx, {'split', 'inside', 'number'}, C15.CHARS + ('number_matches',))
