import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('ci.c', ('''    long n = 0;
    Obs *obs;
    for (obs = obslist->first; obs; obs = obs->next)
	if (obs->count > 0)
	    n++;
    return(n > 1 ? True : False);
''', '''    Boolean one = False;
    Obs *obs;
    for (obs = obslist->first; obs; obs = obs->next)
    {
	if (obs->count <= 0)
	    continue;
	if (one)
	    return(True);
	one = True;
    }
    return(False);
'''), ('''void compute_ci(''', '''static double spread(obslist)
Obslist *obslist;
{
    double sum = 0.0, d;
    Obs *obs = obslist->first;
    while (obs)
    {
	d = obs->j - obslist->total.j;
	sum += d * d;
	obs = obs->next;
    }
    return(sum);
}

static double percent(x)
double x;
{
    if (x < 0.0)
	return(0.0);
    return(x > 100.0 ? 100.0 : x);
}

void compute_ci('''), ('''    sum = 0.0;
    for (obs = obslist->first; obs; obs = obs->next)
	sum += (obs->j - obslist->total.j) * (obs->j - obslist->total.j);
    w = 1.96 * sqrt(sum / (n - 1) / n);
    *lower = max(0.0, min(100.0, obslist->total.j - w));
    *upper = max(0.0, min(100.0, obslist->total.j + w));
''', '''    w = 1.96 * sqrt(spread(obslist) / (n - 1) / n);
    *upper = percent(obslist->total.j + w);
    *lower = percent(obslist->total.j - w);
'''), ('''    obs = NEW(Obs);
    obs->count  = count;
    obs->missed = missed;
    obslist->total.count  += count;
    obslist->total.missed += missed;
    list_insert_last(obslist, obs);
''', '''    obs = NEW(Obs);
    list_insert_last(obslist, obs);
    obs->missed = missed;
    obs->count  = count;
    obslist->total.missed += obs->missed;
    obslist->total.count  += obs->count;
'''))
ed('accci.c', ('''    long chars, errors;
    chars  = accdata.characters;
    errors = accdata.errors;
    read_accrpt(&accdata, filename);
    append_obs(&obslist, accdata.characters - chars, accdata.errors - errors);
''', '''    long chars = -accdata.characters, errors = -accdata.errors;
    read_accrpt(&accdata, filename);
    chars += accdata.characters;
    errors += accdata.errors;
    append_obs(&obslist, chars, errors);
'''), ('''    printf("%14ld   Observations\\n", obslist.count);
    printf("%14ld   Characters\\n", accdata.characters);
    printf("%14ld   Errors\\n", accdata.errors);
''', '''    show(obslist.count, "Observations");
    show(accdata.characters, "Characters");
    show(accdata.errors, "Errors");
'''), ('''void write_results()
''', '''static void show(value, name)
long value;
char *name;
{
    printf("%14ld   %s\\n", value, name);
}

void write_results()
'''))
