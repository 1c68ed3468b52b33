import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('vote.c', ('''    if (fraction[0] >= '1' && fraction[1] == '/' && fraction[2] <= '9' &&
    fraction[0] <= fraction[2] && !fraction[3])
    {
	*m = fraction[0] - '0';
	*n = fraction[2] - '0';
	return(True);
    }
    else
	return(False);
''', '''    char top = *fraction;
    if (top < '1' || fraction[1] != '/')
	return(False);
    if (fraction[2] > '9' || fraction[2] < top)
	return(False);
    if (fraction[3])
	return(False);
    *n = fraction[2] - '0';
    *m = top - '0';
    return(True);
'''), ('''    for (i = 0; i < argc; i++)
    {
	voter[i] = NEW(Voter);
	voter[i]->argnum = i;
	voter[i]->filename = argv[i];
	read_text(&voter[i]->text, argv[i], &textopt);
    }
    num_voters = argc;
    if (!optimize || num_voters < actual_voters)
	actual_voters = num_voters;
''', '''    for (num_voters = 0; num_voters < argc; num_voters++)
    {
	Voter *v = NEW(Voter);
	v->argnum = num_voters;
	v->filename = argv[num_voters];
	read_text(&v->text, v->filename, &textopt);
	voter[num_voters] = v;
    }
    if (!(optimize && num_voters >= actual_voters))
	actual_voters = num_voters;
'''), ('''    if (sfraction) {
	if (valid_fraction(sfraction, &m, &n))
	    suspect_threshold = actual_voters * unmarked_weight * m / n;
	else
	    error_string("invalid threshold", sfraction);
    }
''', '''    if (!sfraction)
	return;
    if (!valid_fraction(sfraction, &m, &n))
	error_string("invalid threshold", sfraction);
    suspect_threshold = m * actual_voters * unmarked_weight / n;
'''), ('''    short num_votes, i;
    num_votes = unmarked_weight;
    if (c)
    {
	if (c->value == REJECT_CHARACTER)
	    return;
	if (c->suspect)
	    num_votes = suspect_weight;
	for (i = 0; i < num_candidates && (!candidate[i].c ||
	c->value != candidate[i].c->value); i++);
    }
    else
	for (i = 0; i < num_candidates && candidate[i].c; i++);
    if (i < num_candidates)
	candidate[i].num_votes += num_votes;
    else
    {
	num_candidates++;
	candidate[i].c = c;
	candidate[i].num_votes = num_votes;
    }
''', '''    short num_votes = c && c->suspect ? suspect_weight : unmarked_weight, i;
    if (c && c->value == REJECT_CHARACTER)
	return;
    for (i = 0; i < num_candidates; i++)
    {
	Char *other = candidate[i].c;
	if (c == NULL)
	{
	    if (other == NULL)
		break;
	}
	else if (other && other->value == c->value)
	    break;
    }
    if (i == num_candidates)
    {
	candidate[i].num_votes = 0;
	candidate[i].c = c;
	num_candidates = i + 1;
    }
    candidate[i].num_votes += num_votes;
'''), ('''    short i, leader = 0;
    if (num_candidates == 0)
    {
	append_char(&output, False, REJECT_CHARACTER);
	return(True);
    }
    for (i = 1; i < num_candidates; i++)
	if (candidate[i].num_votes > candidate[leader].num_votes)
	    leader = i;
    num_candidates = 0;
    if (!candidate[leader].c)
	return(False);
    append_char(&output,
    (candidate[leader].num_votes <= suspect_threshold ? True : False),
    candidate[leader].c->value);
    return(True);
''', '''    short i = 1, leader = 0, count = num_candidates;
    Boolean suspect;
    num_candidates = 0;
    if (!count)
    {
	append_char(&output, False, REJECT_CHARACTER);
	return(True);
    }
    while (i < count)
    {
	if (candidate[leader].num_votes < candidate[i].num_votes)
	    leader = i;
	i++;
    }
    if (candidate[leader].c == NULL)
	return(False);
    suspect = candidate[leader].num_votes > suspect_threshold ? False : True;
    append_char(&output, suspect, candidate[leader].c->value);
    return(True);
'''), ('''    for (sync = synclist->first; sync; sync = sync->next)
	do
	    for (i = 0; i < actual_voters; i++)
		if (sync->substr[i].start <= sync->substr[i].stop)
		    place_vote(input[i].array[sync->substr[i].start++]);
		else
		    place_vote(NULL);
	while (winner());
''', '''    sync = synclist->first;
    while (sync)
    {
	do
	{
	    for (i = 0; i < actual_voters; i++)
	    {
		Char *c = NULL;
		if (sync->substr[i].start <= sync->substr[i].stop)
		{
		    c = input[i].array[sync->substr[i].start];
		    sync->substr[i].start++;
		}
		place_vote(c);
	    }
	} while (winner());
	sync = sync->next;
    }
'''), ('''    return(*count1 < *count2 ? -1 : *count1 > *count2);
''', '''    if (*count1 == *count2)
	return(0);
    return(*count1 > *count2 ? 1 : -1);
'''), ('''    for (i = 0; i < seqtable.count; i++)
    {
	difference =
        seqtable.array[i]->count[index] - seqtable.array[i]->median;
	if (difference < 0)
	    difference = -difference;
	voter[index]->distance += difference;
    }
''', '''    Voter *v = voter[index];
    Sequence *s;
    for (i = 0; i < seqtable.count; i++)
    {
	s = seqtable.array[i];
	difference = s->count[index] - s->median;
	v->distance += difference < 0 ? -difference : difference;
    }
'''), ('''    if (voter1->distance != voter2->distance)
	return(voter1->distance < voter2->distance ? -1 : 1);
    return(voter1->argnum - voter2->argnum);
''', '''    if (voter1->distance < voter2->distance)
	return(-1);
    if (voter1->distance > voter2->distance)
	return(1);
    return(voter1->argnum < voter2->argnum ? -1 : voter1->argnum > voter2->argnum);
'''), ('''    if (optimize)
    {
	for (i = 0; i < num_voters; i++)
	    count_sequences(i);
	table_in_array(&seqtable);
	for (i = 0; i < seqtable.count; i++)
	    compute_median(seqtable.array[i]);
	for (i = 0; i < num_voters; i++)
	    compute_distance(i);
	sort(i, voter, compare_distances);
	if (debug)
	    for (i = 0; i < num_voters; i++)
		printf("%11.1f %s\\n", voter[i]->distance, voter[i]->filename);
    }
    for (i = 0; i < actual_voters; i++)
	input[i] = voter[i]->text;
''', '''    if (optimize)
	rank_voters();
    i = 0;
    while (i < actual_voters)
    {
	input[i] = voter[i]->text;
	++i;
    }
'''), ('''void select_voters()
''', '''static void rank_voters()
{
    long i;
    Sequence **s;
    for (i = 0; i < num_voters; i++)
	count_sequences(i);
    table_in_array(&seqtable);
    for (s = seqtable.array; s < seqtable.array + seqtable.count; s++)
	compute_median(*s);
    for (i = 0; i < num_voters; i++)
	compute_distance(i);
    sort(num_voters, voter, compare_distances);
    if (!debug)
	return;
    for (i = 0; i < num_voters; i++)
	printf("%11.1f %s\\n", voter[i]->distance, voter[i]->filename);
}

void select_voters()
'''))
