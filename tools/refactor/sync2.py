import sys
def sub(p, pairs):
    p=sys.argv[1]+'/src/'+p
    s=open(p).read()
    for a,b in pairs:
        if s.count(a)<1: print('NOT FOUND', a); continue
        s=s.replace(a,b,1)
    open(p,'w').write(s)
sub('sync.c',[("""		for (i1 = s1 + 1, i2 = s2 + 1; i1 <= stop1 && i2 <= stop2 &&
		c1[i1]->value == c2[i2]->value &&
		c1[i1]->value != REJECT_CHARACTER; i1++, i2++);
		increase = i1 - s1 - maxlen;
		if (increase > 0)
		{
		    s1limit -= increase;
		    s2limit -= increase;
		    maxlen  += increase;
		    *mstart1 = s1;
		    *mstart2 = s2;
		}
""","""		for (i1 = 1; s1 + i1 <= stop1 && s2 + i1 <= stop2 &&
		c1[s1 + i1]->value == c2[s2 + i1]->value &&
		c1[s1 + i1]->value != REJECT_CHARACTER; i1++);
		if (i1 > maxlen)
		{
		    maxlen   = i1;
		    s1limit  = stop1 - maxlen;
		    s2limit  = stop2 - maxlen;
		    *mstart1 = s1;
		    *mstart2 = s2;
		}
"""),("""    while (1)
    {
	length = 0;
	for (s1""","""    for (;;)
    {
	length = 0;
	sync1 = sync2 = NULL;
	for (s1"""),
("""	if (length == 0)
	    break;
	match = NEW(long);""","""	if (sync1 == NULL)
	    break;
	match = NEW(long);"""),
("""	if (m <= n)
	{
	    for (k = min(n_m, p); k >= max(min_k, -p); k--)
		compute_f(k, path);
	    for (k = n_m + 1; k <= min(max_k, p); k++)
		compute_f(k, path);
	}
	else
	{
	    for (k = max(n_m, -p); k <= min(max_k, p); k++)
		compute_f(k, path);
	    for (k = n_m - 1; k >= max(min_k, -p); k--)
		compute_f(k, path);
	}
""","""	if (n_m >= 0)
	{
	    compute_down(min(n_m, p), path);
	    compute_up(n_m + 1, path);
	}
	else
	{
	    compute_up(max(n_m, -p), path);
	    compute_down(n_m - 1, path);
	}
"""),("""static void compute_pathlist(text)""","""static void compute_down(k, path)
long k;
Path *path;
{
    while (k >= min_k && k >= -path->p)
	compute_f(k--, path);
}

static void compute_up(k, path)
long k;
Path *path;
{
    for (; k <= max_k && k <= path->p; k++)
	compute_f(k, path);
}

static void compute_pathlist(text)"""),
("""	i = 0;
	while (diaglist.first)
	{
	    diag = diaglist.first;
	    list_remove(&diaglist, diag);
	    path->f[i++] = diag->f;
	    free(diag);
	}
""","""	for (i = 0; (diag = diaglist.first) != NULL; i++)
	{
	    path->f[i] = diag->f;
	    list_remove(&diaglist, diag);
	    free(diag);
	}
"""),
("""    long k, f, start[2], prev_k;
    Path *path;
    k = n_m;
    while (pathlist.last)
    {
	path = pathlist.last;
	f = path->f[k - path->start_k];
	start[0] = initial_f(k, path->prev, &prev_k);
	if (f > start[0])
	{
	    start[1] = start[0] + k;
	    save_match(synclist, 2, synclist->first, start, f - start[0],
	    NEW(long));
	}
""","""    long k, length, start[2], prev_k;
    Path *path;
    for (k = n_m; (path = pathlist.last); k = prev_k)
    {
	start[0] = initial_f(k, path->prev, &prev_k);
	start[1] = start[0] + k;
	length = path->f[k - path->start_k] - start[0];
	if (length > 0)
	    save_match(synclist, 2, synclist->first, start, length,
	    NEW(long));
"""),("""	free(path->f);
	free(path);
	k = prev_k;
    }""","""	free(path->f);
	free(path);
    }"""),
("""    if (prev_path)
    {
	start = max(k - 1, prev_path->start_k);
	stop  = min(k + 1, prev_path->stop_k);
	if (start > stop)
	    error("internal synchronization error");
	for (i = start; i <= stop; i++)
	{
	    value = prev_path->f[i - prev_path->start_k];
	    if (i >= k)
		value++;
	    if (value >= result)
	    {
		result = value;
		*prev_k = i;
	    }
	}
    }
    return(result);
""","""    if (!prev_path)
	return(0);
    start = max(k - 1, prev_path->start_k);
    stop  = min(k + 1, prev_path->stop_k);
    if (start > stop)
	error("internal synchronization error");
    for (i = start; i <= stop; i++)
    {
	value = prev_path->f[i - prev_path->start_k] + (i < k ? 0 : 1);
	if (value < result)
	    continue;
	result = value;
	*prev_k = i;
    }
    return(result);
"""),
("""    for (i = 0; i < num_text; i++)
	if (sync->substr[i].length == 0)
	    return;
    start[0] = sync->substr[0].start;
    length   = sync->substr[0].length;
""","""    if (empty_sync(num_text, sync))
	return;
    start[0] = sync->substr[0].start;
    length   = sync->substr[0].length;
"""),("""static void recursive_sync(""","""static Boolean empty_sync(num_text, sync)
short num_text;
Sync *sync;
{
    short i;
    for (i = 0; i < num_text; i++)
	if (sync->substr[i].length == 0)
	    return(True);
    return(False);
}

static void recursive_sync("""),
("""	change = new_start - start[0];
	if (change > 0)
	    for (j = 0; j < i; j++)
		start[j] += change;
""","""	change = new_start - start[0];
	for (j = 0; j < i; j++)
	    start[j] += change;
"""),
])
sub('wordacc.c',[("""    if (prev_path)
    {
	if (k > -prev_path->p)
	{
	    result = prev_path->f[(k - 1 + prev_path->p) >> 1];
	    *prev_k = k - 1;
	}
	if (k < prev_path->p)
	{
	    value = prev_path->f[(k + 1 + prev_path->p) >> 1] + 1;
	    if (value >= result)
	    {
		result = value;
		*prev_k = k + 1;
	    }
	}
    }
    return(result);
""","""    long i;
    if (prev_path == NULL)
	return(result);
    i = (k - 1 + prev_path->p) >> 1;
    if (k > -prev_path->p)
    {
	result = prev_path->f[i];
	*prev_k = k - 1;
    }
    if (k < prev_path->p && (value = prev_path->f[i + 1] + 1) >= result)
    {
	result = value;
	*prev_k = k + 1;
    }
    return(result);
"""),("""    for (path = pathlist.last; path; path = path->prev)
    {
	f = path->f[(k + path->p) >> 1];
	start = initial_f(k, path->prev, &prev_k);
""","""    path = pathlist.last;
    while (path)
    {
	start = initial_f(k, path->prev, &prev_k);
	f = path->f[(k + path->p) >> 1];
"""),("""	k = prev_k;
    }
}""","""	k = prev_k;
	path = path->prev;
    }
}"""),])
