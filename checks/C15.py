"""C15: only equal, non-reject characters are matched; only identical words are."""
from . import align
from .common import *

RULE = ('a match that is saved is a run over which a comparison of the characters at the same distance in both texts, and with the reject character, '
        'decided for every step (induction over the loops that find, keep and move it); the places, lengths and segments of a match stay together on '
        'the way to save_match, which splits the segment there; the place kept for a diagonal is reached over equal characters (or words: entries of '
        'the same spelling) from the place initial_f gives, is kept where it is looked up again, and the matches are what lies between the two')
ASSUME = ['lists and tables behave (C20, C21); text positions stay below 2^40; malloc succeeds',
          'segments next to a match are never matched themselves, since matches are maximal']
TECH = 'abstract interpretation of LLVM IR with inductive loop summaries: contracts of each alignment routine, proved separately and composed'
NOTE = ''
WANT = {'matched'}
CHARS = ('longest_match', 'recursive_sync', 'save_match', 'initialize_synclist', 'transpose_sync', 'synchronize', 'initial_f', 'compute_f',
         'compute_pathlist', 'obtain_matches', 'fastukk_sync')
WORDS = ('words', 'initial_f', 'compute_f', 'compute_pathlist', 'obtain_matches')


def decide(ctx, want, chars, words=()):
    P = ctx.program()
    x = align.Ctl(ctx, P, want).sync()
    x.kind = 'char'
    x.fsize = align.width(x.mod, 'F')
    for n in chars:
        getattr(align, n)(x)
    if words:
        ctx.P = None
        P = ctx.program('wordacc')
        x = align.Ctl(ctx, P, want).module('wordacc')
        x.kind = 'word'
        x.fsize = align.width(x.mod, 'F')
        for n in words:
            getattr(align, n)(x)


def run(ctx):
    decide(ctx, WANT, CHARS, WORDS)
