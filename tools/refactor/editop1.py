import sys
def sub(p, pairs):
    p=sys.argv[1]+'/src/'+p
    s=open(p).read()
    for a,b in pairs:
        if s.count(a)<1: print('NOT FOUND', a); continue
        s=s.replace(a,b)
    open(p,'w').write(s)
sub('editop.c',[("""    Sync *sync;
    long i;
    for (sync = synclist->first; sync; sync = sync->next)
	if (!sync->match)
	    for (i = sync->substr->start; i <= sync->substr->stop; i++)
		if (text->array[i]->value != REJECT_CHARACTER)
		    edodata.total_insertions++;
""","""    Sync *sync;
    long i, n;
    for (sync = synclist->first; sync != NULL; sync = sync->next)
    {
	if (sync->match)
	    continue;
	n = 0;
	i = sync->substr->start;
	while (i < sync->substr->stop + 1)
	{
	    Char *c = text->array[i++];
	    n += (c->value == REJECT_CHARACTER ? 0 : 1);
	}
	edodata.total_insertions += n;
    }
"""),("""	if (*sync->match > limit)
	    *sync->match -= 1;
""","""    {
	long m = *sync->match;
	if (m >= limit + 1)
	    *sync->match = m - 1;
    }
"""),("""    sync = synclist->first;
    while (sync)
    {
	next = sync->next;
	if (next && *next->match == *sync->match + 1)
	{
	    sync->substr->length += next->substr->length;
	    discard_sync(synclist, next);
	    decrement_match(synclist, *sync->match);
	}
	else
	    sync = next;
    }
""","""    for (sync = synclist->first; sync; )
    {
	long here = *sync->match;
	next = sync->next;
	if (!next || *next->match - 1 != here)
	{
	    sync = next;
	    continue;
	}
	long both = sync->substr->length + next->substr->length;
	discard_sync(synclist, next);
	sync->substr->length = both;
	decrement_match(synclist, here);
    }
"""),("""    list_remove(synclist, sync);
    if (*sync->match == 1)
	list_insert_before(synclist, sync, candidate[2].sync);
    else
	list_insert_after(synclist, candidate[*sync->match - 1].sync, sync);
    edodata.total_moves++;
    length = min(sync->substr->length, MAX_MOVE_LENGTH);
    edodata.moves[length]++;
""","""    long m = *sync->match;
    Sync *neighbour = candidate[m == 1 ? 2 : m - 1].sync;
    length = sync->substr->length < MAX_MOVE_LENGTH ? sync->substr->length : MAX_MOVE_LENGTH;
    list_remove(synclist, sync);
    if (m != 1)
	list_insert_after(synclist, neighbour, sync);
    else
	list_insert_before(synclist, sync, neighbour);
    edodata.moves[length] += 1;
    edodata.total_moves += 1;
"""),("""    while (synclist->count > 1)
    {
""","""    for (;;)
    {
	if (synclist->count <= 1)
	    break;
""")])
