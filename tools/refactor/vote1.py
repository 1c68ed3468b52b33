import sys
def sub(p, pairs):
    p=sys.argv[1]+'/src/'+p
    s=open(p).read()
    for a,b in pairs:
        if s.count(a)<1: print('NOT FOUND', a); continue
        s=s.replace(a,b)
    open(p,'w').write(s)
sub('vote.c',[("""void place_vote(c)
Char *c;
{
    short num_votes, i;
    num_votes = unmarked_weight;
    if (c)
    {
	if (c->value == REJECT_CHARACTER)
	    return;
	if (c->suspect)
	    num_votes = suspect_weight;
	for (i = 0; i < num_candidates && (!candidate[i].c ||
	c->value != candidate[i].c->value); i++);
    }
    else
	for (i = 0; i < num_candidates && candidate[i].c; i++);
    if (i < num_candidates)
	candidate[i].num_votes += num_votes;
    else
    {
	num_candidates++;
	candidate[i].c = c;
	candidate[i].num_votes = num_votes;
    }
}""","""static Boolean same_candidate(a, b)
Char *a, *b;
{
    if (!a || !b)
	return(a == b ? True : False);
    return(a->value == b->value ? True : False);
}

static void vote_for(c, weight)
Char *c;
short weight;
{
    short i = 0;
    while (i < num_candidates)
    {
	if (same_candidate(c, candidate[i].c))
	{
	    candidate[i].num_votes += weight;
	    return;
	}
	i++;
    }
    candidate[num_candidates].num_votes = weight;
    candidate[num_candidates].c = c;
    num_candidates++;
}

void place_vote(c)
Char *c;
{
    if (!c)
	vote_for(c, unmarked_weight);
    else if (c->value != REJECT_CHARACTER)
	vote_for(c, c->suspect ? suspect_weight : unmarked_weight);
}"""),
("""    short i, leader = 0;
    if (num""","""    short i, leader, most;
    Boolean mark;
    if (num"""),
("""    for (i = 1; i < num_candidates; i++)
	if (candidate[i].num_votes > candidate[leader].num_votes)
	    leader = i;
    num_candidates = 0;
    if (!candidate[leader].c)
	return(False);
    append_char(&output,
    (candidate[leader].num_votes <= suspect_threshold ? True : False),
    candidate[leader].c->value);
    return(True);""","""    leader = 0;
    most = candidate[0].num_votes;
    for (i = 1; i < num_candidates; ++i)
	if (most < candidate[i].num_votes)
	{
	    leader = i;
	    most = candidate[i].num_votes;
	}
    num_candidates = 0;
    if (candidate[leader].c)
    {
	mark = candidate[leader].num_votes > suspect_threshold ? False : True;
	append_char(&output, mark, candidate[leader].c->value);
	return(True);
    }
    return(False);"""),
("""	do
	    for (i = 0; i < actual_voters; i++)
		if (sync->substr[i].start <= sync->substr[i].stop)
		    place_vote(input[i].array[sync->substr[i].start++]);
		else
		    place_vote(NULL);
	while (winner());""","""    {
	Boolean more = True;
	while (more)
	{
	    for (i = 0; i < actual_voters; i++)
	    {
		Substr *s = &sync->substr[i];
		Char *c = NULL;
		if (s->start <= s->stop)
		{
		    c = input[i].array[s->start];
		    s->start++;
		}
		place_vote(c);
	    }
	    more = winner();
	}
    }"""),
])
