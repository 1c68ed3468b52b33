import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('dist.c', ('''void update_dist(dist, count, missed)
Dist *dist;
long count, missed;
{
    double accuracy;
    short i;
    if (count == 0)
	return;
    accuracy = 100.0 * (count - missed) / count;
    for (i = 0; i <= 100 && accuracy >= i; i++)
	dist->count[i] += count;
    dist->total_count += count;
}
''', '''static double percentage(part, whole)
long part, whole;
{
    return(100.0 * part / whole);
}

void update_dist(dist, count, missed)
Dist *dist;
long count, missed;
{
    double accuracy;
    int i = 0;
    if (count)
    {
	dist->total_count += count;
	accuracy = percentage(count - missed, count);
	while (i <= 100)
	{
	    if (accuracy < i)
		break;
	    dist->count[i++] += count;
	}
    }
}
'''), ('''    if (dist->total_count == 0)
	return;
    f = open_file(filename, "w");
    for (i = 0; i <= 100; i++)
	fprintf(f, "%3d %6.2f\\n", i,
	100.0 * dist->count[i] / dist->total_count);
    close_file(f);
''', '''    if (dist->total_count != 0)
    {
	f = open_file(filename, "w");
	i = 0;
	do
	{
	    double share = percentage(dist->count[i], dist->total_count);
	    fprintf(f, "%3d %6.2f\\n", i, share);
	    i++;
	} while (i < 101);
	close_file(f);
    }
'''))
ed('accdist.c', ('''    long chars, errors;
    chars  = accdata.characters;
    errors = accdata.errors;
    read_accrpt(&accdata, filename);
    update_dist(&dist, accdata.characters - chars, accdata.errors - errors);
''', '''    long chars = -accdata.characters, errors = -accdata.errors;
    read_accrpt(&accdata, filename);
    chars += accdata.characters;
    errors += accdata.errors;
    update_dist(&dist, chars, errors);
'''), ('''    int i;
    initialize(&argc, argv, usage, NULL);
    for (i = 0; i < argc; i++)
	process_file(argv[i]);
''', '''    char **file = argv;
    initialize(&argc, argv, usage, NULL);
    while (argc-- > 0)
	process_file(*file++);
'''))
