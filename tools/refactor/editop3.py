import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('editop.c', ('''Candidate *find_candidates(synclist)
''', '''static Boolean follows(sync, other, distance)
Sync *sync, *other;
long distance;
{
    return(other && *other->match == *sync->match + distance ? True : False);
}
/**********************************************************************/

Candidate *find_candidates(synclist)
'''), ('''	if (sync->next && *sync->next->match == *sync->match + 2)
	    candidate[*sync->match + 1].for_insertion = True;
	if (sync->next && sync->next->next &&
	*sync->next->next->match == *sync->match + 1)
	    candidate[*sync->next->match].for_deletion = True;
	candidate[*sync->match].sync = sync;
''', '''	candidate[*sync->match].sync = sync;
	if (!sync->next)
	    continue;
	if (follows(sync, sync->next->next, 1))
	    candidate[*sync->next->match].for_deletion = True;
	if (follows(sync, sync->next, 2))
	    candidate[*sync->match + 1].for_insertion = True;
'''), ('''Sync *find_move(synclist, candidate)
''', '''static long blocks_saved(c)
Candidate *c;
{
    return(1 + (c->for_insertion ? 1 : 0) + (c->for_deletion ? 1 : 0));
}
/**********************************************************************/

Sync *find_move(synclist, candidate)
'''), ('''    long i, reduction, move_i, move_length, move_reduction = 0;
    for (i = 1; i <= synclist->count; i++)
    {
	reduction = 1;
	if (candidate[i].for_insertion)
	    reduction++;
	if (candidate[i].for_deletion)
	    reduction++;
	if (reduction > move_reduction || (reduction == move_reduction &&
	candidate[i].sync->substr->length < move_length))
	{
	    move_i = i;
	    move_length = candidate[i].sync->substr->length;
	    move_reduction = reduction;
	}
    }
    return(candidate[move_i].sync);
''', '''    long i, reduction, best_reduction = 0;
    Sync *best = NULL;
    for (i = 1; i <= synclist->count; i++)
    {
	reduction = blocks_saved(&candidate[i]);
	if (reduction < best_reduction)
	    continue;
	if (reduction == best_reduction &&
	best->substr->length <= candidate[i].sync->substr->length)
	    continue;
	best = candidate[i].sync;
	best_reduction = reduction;
    }
    return(best);
'''))
