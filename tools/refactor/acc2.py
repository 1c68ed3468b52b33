import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('accuracy.c', ('''	for (i = sync->substr[1].start; i <= sync->substr[1].stop; i++)
	    if (text[1].array[i]->value == REJECT_CHARACTER)
		reject_characters++;
	    else if (text[1].array[i]->suspect)
		suspect_markers++;
''', '''	for (p = text[1].array + sync->substr[1].start, i = sync->substr[1].stop - sync->substr[1].start + 1; i > 0; i--, p++)
	{
	    if ((*p)->value == REJECT_CHARACTER)
		reject_characters++;
	    if ((*p)->value != REJECT_CHARACTER && (*p)->suspect)
		suspect_markers++;
	}
'''), ('''    Sync *sync;
    long i, characters,''', '''    Sync *sync;
    Char **p;
    long i, characters,'''),
('''	if (sync->match)
	    accdata.false_marks += suspect_markers;
	else
	{
	    genchars = max(0, sync->substr[1].length - wildcards);
	    ops.errors = max(characters, genchars);
	    if (ops.errors > 0)
	    {
		accdata.errors += ops.errors;
		ops.ins   = max(0, characters - genchars);
		ops.subst = min(characters, genchars);
		ops.del   = max(0, genchars - characters);
		make_key(key, sync);
''', '''	if (sync->match)
	{
	    accdata.false_marks += suspect_markers;
	    continue;
	}
	{
	    genchars = sync->substr[1].length - wildcards;
	    if (genchars < 0)
		genchars = 0;
	    ops.ins = ops.subst = ops.del = 0;
	    if (characters > genchars)
	    {
		ops.ins = characters - genchars;
		ops.subst = genchars;
	    }
	    else
	    {
		ops.subst = characters;
		ops.del = genchars - characters;
	    }
	    ops.errors = ops.ins + ops.subst + ops.del;
	    if (ops.errors)
	    {
		accdata.errors += ops.errors;
		make_key(key, sync);
'''), ('''	if (text_missing''', '') if 0 else ('''		if (reject_characters + suspect_markers > 0)
''', '''		if (reject_characters || suspect_markers)
'''))
ed('editop.c', ('''	    for (i = sync->substr->start; i <= sync->substr->stop; i++)
		if (text->array[i]->value != REJECT_CHARACTER)
		    edodata.total_insertions++;
''', '''	{
	    Char **c = &text->array[sync->substr->start];
	    for (i = 0; i < sync->substr->stop - sync->substr->start + 1; i++, c++)
	    {
		if ((*c)->value == REJECT_CHARACTER)
		    continue;
		edodata.total_insertions += 1;
	    }
	}
'''), ('''    sync = synclist->first;
    while (sync)
    {
	next = sync->next;
	if (!sync->match)
	{
	    edodata.total_deletions += sync->substr->length;
	    discard_sync(synclist, sync);
	}
	sync = next;
    }
''', '''    long deleted = 0;
    for (sync = synclist->first; sync; sync = next)
    {
	next = sync->next;
	if (sync->match)
	    continue;
	deleted += sync->substr->length;
	discard_sync(synclist, sync);
    }
    edodata.total_deletions += deleted;
'''), ('''    length = min(sync->substr->length, MAX_MOVE_LENGTH);
    edodata.moves[length]++;
''', '''    length = sync->substr->length > MAX_MOVE_LENGTH ? MAX_MOVE_LENGTH : sync->substr->length;
    ++edodata.moves[length];
'''), ('''    while (synclist->count > 1)
    {
	candidate = find_candidates(synclist);
	sync = find_move(synclist, candidate);
	perform_move(synclist, candidate, sync);
	free(candidate);
	combine_adjacent(synclist);
    }
''', '''    for (; synclist->count >= 2; combine_adjacent(synclist))
    {
	candidate = find_candidates(synclist);
	sync = find_move(synclist, candidate);
	perform_move(synclist, candidate, sync);
	free(candidate);
    }
'''), ('''    if (*sync->match == 1)
	list_insert_before(synclist, sync, candidate[2].sync);
    else
	list_insert_after(synclist, candidate[*sync->match - 1].sync, sync);
''', '''    i = *sync->match;
    if (i > 1)
	list_insert_after(synclist, candidate[i - 1].sync, sync);
    else
	list_insert_before(synclist, sync, candidate[i + 1].sync);
'''), ('''    short length;
    list_remove''', '''    short length;
    long i;
    list_remove'''))
