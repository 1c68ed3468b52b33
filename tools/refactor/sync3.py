import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('sync.c', ('''    short i;
    for (i = 0; i < num_text; i++)
	if (sync->substr[i].length > 0)
	    return(True);
    return(False);
''', '''    Boolean valid = False;
    short i;
    for (i = 0; i < num_text && !valid; i++)
	valid = (sync->substr[i].length > 0 ? True : False);
    return(valid);
'''), ('''    Sync *sync;
    short i;
    list_initialize(synclist);
    sync = create_sync(num_text);
    for (i = 0; i < num_text; i++)
    {
	list_in_array(&text[i]);
	sync->substr[i].start  = 0;
	sync->substr[i].stop   = text[i].count - 1;
	sync->substr[i].length = text[i].count;
    }
''', '''    Sync *sync;
    short i;
    list_initialize(synclist);
    sync = create_sync(num_text);
    for (i = 0; i < num_text; i++)
    {
	Substr *s = &sync->substr[i];
	s->length = text[i].count;
	s->stop   = s->length - 1;
	s->start  = 0;
	list_in_array(text + i);
    }
'''), ('''	    if (c1[s1]->value == c2[s2]->value &&
	    c1[s1]->value != REJECT_CHARACTER)
	    {
		for (i1 = s1 + 1, i2 = s2 + 1; i1 <= stop1 && i2 <= stop2 &&
		c1[i1]->value == c2[i2]->value &&
		c1[i1]->value != REJECT_CHARACTER; i1++, i2++);
		increase = i1 - s1 - maxlen;
''', '''	    if (same_char(c1[s1], c2[s2]))
	    {
		i1 = s1 + 1;
		i2 = s2 + 1;
		while (i1 <= stop1 && i2 <= stop2 && same_char(c1[i1], c2[i2]))
		{
		    i1++;
		    i2++;
		}
		increase = i1 - s1 - maxlen;
'''), ('''static long longest_match(maxlen''', '''static Boolean same_char(x, y)
Char *x, *y;
{
    if (x->value == REJECT_CHARACTER)
	return(False);
    return(x->value == y->value ? True : False);
}

static long longest_match(maxlen'''), ('''	stop = start[i] + length - 1;
	left->substr[i].start   = sync->substr[i].start;
	left->substr[i].stop    = start[i] - 1;
	left->substr[i].length  = start[i] - sync->substr[i].start;
	right->substr[i].start  = stop + 1;
	right->substr[i].stop   = sync->substr[i].stop;
	right->substr[i].length = sync->substr[i].stop - stop;
	sync->substr[i].start	= start[i];
	sync->substr[i].stop	= stop;
	sync->substr[i].length	= length;
''', '''	old = sync->substr[i];
	stop = start[i] + length - 1;
	set_substr(&left->substr[i], old.start, start[i] - 1);
	set_substr(&right->substr[i], stop + 1, old.stop);
	set_substr(&sync->substr[i], start[i], stop);
'''), ('''    Sync *left, *right;
    short i;
    long stop;
''', '''    Sync *left, *right;
    Substr old;
    short i;
    long stop;
'''), ('''static void save_match(''', '''static void set_substr(substr, start, stop)
Substr *substr;
long start, stop;
{
    substr->start  = start;
    substr->stop   = stop;
    substr->length = stop - start + 1;
}

static void save_match('''), ('''	change = new_start - start[0];
	if (change > 0)
	    for (j = 0; j < i; j++)
		start[j] += change;
''', '''	change = new_start - start[0];
	for (j = i - 1; j >= 0; j--)
	    start[j] += change;
'''), ('''    for (sync = synclist->first; sync; sync = sync->next)
	if (sync->match)
	    *sync->match = ++match;
''', '''    for (sync = synclist->first; sync; sync = sync->next)
    {
	if (!sync->match)
	    continue;
	match++;
	*sync->match = match;
    }
'''), ('''    while (pathlist.last)
    {
	path = pathlist.last;
''', '''    while ((path = pathlist.last))
    {
'''), ('''    while (i < m && j < n && a[i]->value == b[j]->value &&
    a[i]->value != REJECT_CHARACTER)
    {
	i++;
	j++;
    }
''', '''    for (; i < m && j < n && same_char(a[i], b[j]); i++, j++)
	;
'''), ('''    if (prev_path)
    {
	start = max(k - 1, prev_path->start_k);
	stop  = min(k + 1, prev_path->stop_k);
	if (start > stop)
	    error("internal synchronization error");
	for (i = start; i <= stop; i++)
	{
	    value = prev_path->f[i - prev_path->start_k];
	    if (i >= k)
		value++;
	    if (value >= result)
	    {
		result = value;
		*prev_k = i;
	    }
	}
    }
    return(result);
''', '''    if (!prev_path)
	return(0);
    start = max(k - 1, prev_path->start_k);
    stop  = min(k + 1, prev_path->stop_k);
    if (start > stop)
	error("internal synchronization error");
    for (i = start; i <= stop; i++)
    {
	value = prev_path->f[i - prev_path->start_k] + (i < k ? 0 : 1);
	if (value < result)
	    continue;
	result = value;
	*prev_k = i;
    }
    return(result);
'''))
