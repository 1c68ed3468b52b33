import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('editop.c', ('''    Candidate *candidate;
    Sync *sync;
    candidate = NEW_ARRAY(synclist->count + 1, Candidate);
    for (sync = synclist->first; sync; sync = sync->next)
    {
	if (sync->next && *sync->next->match == *sync->match + 2)
	    candidate[*sync->match + 1].for_insertion = True;
	if (sync->next && sync->next->next &&
	*sync->next->next->match == *sync->match + 1)
	    candidate[*sync->next->match].for_deletion = True;
	candidate[*sync->match].sync = sync;
    }
    return(candidate);
''', '''    Candidate *candidate;
    Sync *sync, *next;
    long here;
    candidate = NEW_ARRAY(synclist->count + 1, Candidate);
    sync = synclist->first;
    while (sync)
    {
	next = sync->next;
	here = *sync->match;
	candidate[here].sync = sync;
	if (next)
	{
	    if (*next->match - here == 2)
		candidate[here + 1].for_insertion = True;
	    if (next->next && *next->next->match - here == 1)
		candidate[*next->match].for_deletion = True;
	}
	sync = next;
    }
    return(candidate);
'''), ('''    long i, reduction, move_i, move_length, move_reduction = 0;
    for (i = 1; i <= synclist->count; i++)
    {
	reduction = 1;
	if (candidate[i].for_insertion)
	    reduction++;
	if (candidate[i].for_deletion)
	    reduction++;
	if (reduction > move_reduction || (reduction == move_reduction &&
	candidate[i].sync->substr->length < move_length))
	{
	    move_i = i;
	    move_length = candidate[i].sync->substr->length;
	    move_reduction = reduction;
	}
    }
    return(candidate[move_i].sync);
''', '''    long i, reduction, length, move_length, move_reduction = 0;
    Sync *best = NULL;
    Candidate *c;
    for (i = 1; i <= synclist->count; i++)
    {
	c = candidate + i;
	length = c->sync->substr->length;
	reduction = 1 + (c->for_insertion ? 1 : 0) + (c->for_deletion ? 1 : 0);
	if (reduction < move_reduction)
	    continue;
	if (reduction == move_reduction && length >= move_length)
	    continue;
	best = c->sync;
	move_length = length;
	move_reduction = reduction;
    }
    return(best);
'''), ('''    short length;
    list_remove(synclist, sync);
    if (*sync->match == 1)
	list_insert_before(synclist, sync, candidate[2].sync);
    else
	list_insert_after(synclist, candidate[*sync->match - 1].sync, sync);
    edodata.total_moves++;
    length = min(sync->substr->length, MAX_MOVE_LENGTH);
    edodata.moves[length]++;
''', '''    long length = sync->substr->length, place = *sync->match;
    list_remove(synclist, sync);
    if (place > 1)
	list_insert_after(synclist, candidate[place - 1].sync, sync);
    else
	list_insert_before(synclist, sync, candidate[2].sync);
    edodata.moves[length > MAX_MOVE_LENGTH ? MAX_MOVE_LENGTH : length] += 1;
    edodata.total_moves += 1;
'''), ('''    while (synclist->count > 1)
    {
	candidate = find_candidates(synclist);
	sync = find_move(synclist, candidate);
	perform_move(synclist, candidate, sync);
	free(candidate);
	combine_adjacent(synclist);
    }
''', '''    for (; synclist->count >= 2; combine_adjacent(synclist))
    {
	candidate = find_candidates(synclist);
	perform_move(synclist, candidate, find_move(synclist, candidate));
	free(candidate);
    }
'''), ('''    Candidate *candidate;
    Sync *sync;
    if (debug)
	display(synclist, "original");
''', '''    Candidate *candidate;
    if (debug)
	display(synclist, "original");
'''), ('''    Sync *sync, *next;
    sync = synclist->first;
    while (sync)
    {
	next = sync->next;
	if (!sync->match)
	{
	    edodata.total_deletions += sync->substr->length;
	    discard_sync(synclist, sync);
	}
	sync = next;
    }
''', '''    Sync *sync, *next;
    long deleted = 0;
    for (sync = synclist->first; sync; sync = next)
    {
	next = sync->next;
	if (sync->match)
	    continue;
	deleted += sync->substr->length;
	discard_sync(synclist, sync);
    }
    edodata.total_deletions += deleted;
'''), ('''    read_text(&text1, argv[0], &textopt);
    if (textopt.found_header)
	error("no correct file specified");
    read_text(&text2, argv[1], &textopt);
''', '''    read_both(argv);
'''), ('''main(argc, argv)
''', '''static void read_both(files)
char *files[];
{
    read_text(&text1, files[0], &textopt);
    if (textopt.found_header)
	error("no correct file specified");
    read_text(&text2, files[1], &textopt);
}

main(argc, argv)
'''))
