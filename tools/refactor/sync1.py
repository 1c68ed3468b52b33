import sys
def sub(p, pairs):
    p=sys.argv[1]+'/src/'+p
    s=open(p).read()
    for a,b in pairs:
        if s.count(a)<1: print('NOT FOUND', a); continue
        s=s.replace(a,b,1)
    open(p,'w').write(s)
sub('sync.c',[("""static Boolean valid_sync(num_text, sync)
short num_text;
Sync *sync;
{
    short i;
    for (i = 0; i < num_text; i++)
	if (sync->substr[i].length > 0)
	    return(True);
    return(False);
}
""","""static Boolean valid_sync(num_text, sync)
short num_text;
Sync *sync;
{
    short i = 0;
    while (i < num_text && sync->substr[i].length <= 0)
	i++;
    return(i < num_text);
}
"""),("""	sync->substr[i].start  = 0;
	sync->substr[i].stop   = text[i].count - 1;
	sync->substr[i].length = text[i].count;
""","""	set_substr(&sync->substr[i], 0L, text[i].count - 1);
"""),("""static void initialize_synclist(""","""static void set_substr(substr, start, stop)
Substr *substr;
long start, stop;
{
    substr->start  = start;
    substr->stop   = stop;
    substr->length = stop - start + 1;
}

static void initialize_synclist("""),
("""	left->substr[i].start   = sync->substr[i].start;
	left->substr[i].stop    = start[i] - 1;
	left->substr[i].length  = start[i] - sync->substr[i].start;
	right->substr[i].start  = stop + 1;
	right->substr[i].stop   = sync->substr[i].stop;
	right->substr[i].length = sync->substr[i].stop - stop;
	sync->substr[i].start	= start[i];
	sync->substr[i].stop	= stop;
	sync->substr[i].length	= length;
""","""	set_substr(&left->substr[i], sync->substr[i].start, start[i] - 1);
	set_substr(&right->substr[i], stop + 1, sync->substr[i].stop);
	set_substr(&sync->substr[i], start[i], stop);
"""),
("""    long match = 0;
    Sync *sync;
    for (sync = synclist->first; sync; sync = sync->next)
	if (sync->match)
	    *sync->match = ++match;
""","""    long next = 1;
    Sync *sync = synclist->first;
    while (sync)
    {
	if (sync->match)
	{
	    *sync->match = next;
	    next++;
	}
	sync = sync->next;
    }
"""),
("""    for (s1 = start1; s1 <= s1limit; s1++)
	for (s2 = start2; s2 <= s2limit; s2++)
	    if (c1[s1]->value == c2[s2]->value &&
	    c1[s1]->value != REJECT_CHARACTER)
	    {
		for (i1 = s1 + 1, i2 = s2 + 1; i1 <= stop1 && i2 <= stop2 &&
		c1[i1]->value == c2[i2]->value &&
		c1[i1]->value != REJECT_CHARACTER; i1++, i2++);
		increase = i1 - s1 - maxlen;
""","""    for (s1 = start1; s1 <= s1limit; s1++)
	for (s2 = start2; s2 <= s2limit; s2++)
	    if (matches(c1[s1], c2[s2]))
	    {
		i1 = s1 + 1;
		i2 = s2 + 1;
		while (i1 <= stop1 && i2 <= stop2 && matches(c1[i1], c2[i2]))
		{
		    i1++;
		    i2++;
		}
		increase = i1 - s1 - maxlen;
"""),("""static long longest_match(""","""static Boolean matches(x, y)
Char *x, *y;
{
    return(x->value == y->value && x->value != REJECT_CHARACTER ? True : False);
}

static long longest_match("""),
("""    while (i < m && j < n && a[i]->value == b[j]->value &&
    a[i]->value != REJECT_CHARACTER)
    {
	i++;
	j++;
    }
""","""    for (; i < m && j < n && matches(a[i], b[j]); i++)
	j++;
"""),
("""    value = (1 - bound + n_m) >> 1;
    if (value > min_k)
	min_k = value;
    value = (bound + n_m) >> 1;
    if (value < max_k)
	max_k = value;
""","""    min_k = max(min_k, (1 - bound + n_m) >> 1);
    max_k = min(max_k, (bound + n_m) >> 1);
"""),
("""	if (sync->substr[i].length == 0)
	    return;
""","""	if (!sync->substr[i].length)
	    return;
"""),
("""    if (num_text < MIN_STREAMS || num_text > MAX_STREAMS)
	error("invalid number of text streams");
    initialize""","""    if (!(num_text >= MIN_STREAMS && num_text <= MAX_STREAMS))
	error("invalid number of text streams");
    initialize"""),
])
sub('wordacc.c',[("""    while (i < m && j < n && a[i]->id == b[j]->id)
    {
	i++;
	j++;
    }
""","""    for (; i < m && j < n; i++, j++)
	if (a[i]->id != b[j]->id)
	    break;
"""),
("""	k = -p;
	while (k <= p)
	{
	    if (k >= min_k && k <= max_k)
		compute_f(k, path);
	    k += 2;
	}
""","""	for (k = -p; k <= p; k += 2)
	{
	    if (k < min_k || k > max_k)
		continue;
	    compute_f(k, path);
	}
"""),
("""	while (f > start)
	    a[--f]->recognized = True;
""","""	for (; f > start; f--)
	    a[f - 1]->recognized = True;
"""),
("""    long i, j = 0;
    array = NEW_ARRAY(wordlist[index].count + 1, Symbol *);
    for (i = 0; i < wordlist[index].count; i++)
	if (symbol[index][i].id->found[1 - index])
	    array[j++] = &symbol[index][i];
    *length = j;
""","""    long i, j = 0;
    Symbol *s;
    array = NEW_ARRAY(wordlist[index].count + 1, Symbol *);
    for (i = 0; i < wordlist[index].count; i++)
    {
	s = &symbol[index][i];
	if (s->id->found[1 - index])
	{
	    array[j] = s;
	    j++;
	}
    }
    *length = j;
""")])
