"""C16: alignments are optimal."""
from . import C15
from .common import *

RULE = ('the recurrence of the shortest edit path is evaluated without a gap: every path from 0 on, in order, computes every diagonal from -p to p (words: '
        'every second one) but those outside of min_k .. max_k, which only shrinks by diagonals that cannot be on a better path (the cost so far plus what '
        'is left of the longer text bounds how far they can be from the last diagonal); the place on a diagonal is the furthest of those its neighbours '
        'on the previous path lead to, extended to the end of the run of equal characters; the search ends no later than the end of both texts and the '
        'path is followed back from there; for the other methods, every pair of places where a longer run could start is tried and every segment '
        'that is left is aligned in turn')
ASSUME = ['that this recurrence yields a path of least cost (Ukkonen 1985; for words: least insertions and deletions, so most matches; Rice 1996 for the '
          'bounds on the diagonals) is the published theorem, not proved here',
          'lists and tables behave (C20, C21); text positions stay below 2^40; a text has at most 65535 words that also occur in the other (checked)']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries: obligations of the recurrence, each discharged per path of each routine'


def run(ctx):
    C15.decide(ctx, {'longest', 'optimal'}, ('longest_match', 'recursive_sync', 'transpose_sync', 'synchronize', 'initial_f', 'compute_f',
                                             'compute_pathlist', 'obtain_matches', 'fastukk_sync'), C15.WORDS)
