import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('dist.c', ('''    double accuracy;
    short i;
    if (count == 0)
	return;
    accuracy = 100.0 * (count - missed) / count;
    for (i = 0; i <= 100 && accuracy >= i; i++)
	dist->count[i] += count;
    dist->total_count += count;
''', '''    double accuracy;
    int i;
    if (count != 0)
    {
	dist->total_count += count;
	accuracy = 100.0 * (count - missed) / count;
	for (i = 0; i <= 100; i++)
	{
	    if (accuracy < i)
		break;
	    dist->count[i] += count;
	}
    }
'''), ('''    short i;
    if (dist->total_count == 0)
	return;
    f = open_file(filename, "w");
    for (i = 0; i <= 100; i++)
	fprintf(f, "%3d %6.2f\\n", i,
	100.0 * dist->count[i] / dist->total_count);
    close_file(f);
''', '''    int i = 0;
    double pct;
    if (!dist->total_count)
	return;
    f = open_file(filename, "w");
    do {
	pct = 100.0 * dist->count[i] / dist->total_count;
	fprintf(f, "%3d %6.2f\\n", i, pct);
    } while (i++ < 100);
    close_file(f);
'''))
ed('wordaccdist.c', ('''    long count, missed;
    count  = wacdata.total.count;
    missed = wacdata.total.missed;
    read_wacrpt(&wacdata, filename);
    update_dist(&dist, wacdata.total.count - count,
    wacdata.total.missed - missed);
''', '''    Wac old;
    old = wacdata.total;
    read_wacrpt(&wacdata, filename);
    update_dist(&dist, wacdata.total.count - old.count,
    wacdata.total.missed - old.missed);
'''))
ed('wacrpt.c', ('''    Term *term;
    term = table_lookup(termtable, key);
    if (!term)
    {
	term = NEW(Term);
	term->key = copy_string(key);
	table_insert(termtable, term);
    }
    increment_wac(&term->wac, count, missed);
''', '''    Term *term = table_lookup(termtable, key);
    if (!term)
	term = new_term(termtable, key);
    term->wac.count  += count;
    term->wac.missed += missed;
'''), ('''void add_term(termtable''', '''static Term *new_term(termtable, key)
Termtable *termtable;
char *key;
{
    Term *term = NEW(Term);
    term->key = copy_string(key);
    table_insert(termtable, term);
    return(term);
}

void add_term(termtable'''), ('''    long count, missed, index, total_count = 0;
    if (read_line(f) && read_line(f))
	while (read_two(f, &count, &missed))
	{
	    index = atoi(&line[OFFSET]);
	    if (index == 0) {
		if (strcmp(&line[OFFSET], TOTAL) == 0)
		    total_count = count;
		else /* excess */
		    index = MAX_OCCURRENCES + 1;
	    }
	    if (index < 0 || index > limit)
		error("invalid format in word accuracy report");
	    increment_wac(&wac[index], count, missed);
	}
    return(total_count);
''', '''    long count, missed, index, total_count = 0;
    if (!read_line(f) || !read_line(f))
	return(0);
    while (read_two(f, &count, &missed))
    {
	index = find_index();
	if (index == 0)
	    total_count = count;
	if (index < 0 || limit < index)
	    error("invalid format in word accuracy report");
	increment_wac(wac + index, count, missed);
    }
    return(total_count);
'''), ('''static long read_numbers(''', '''static long find_index()
{
    char *s = line + OFFSET;
    int index = atoi(s);
    if (index != 0)
	return(index);
    return(strcmp(s, TOTAL) == 0 ? 0 : MAX_OCCURRENCES + 1);
}

static long read_numbers('''), ('''	    line[strlen(line) - 1] = '\\0';
	    add_term(termtable, &line[OFFSET], count, missed);
''', '''	    char *key = line + OFFSET;
	    size_t length = strlen(key);
	    key[length - 1] = '\\0';
	    add_term(termtable, key, count, missed);
'''), ('''	increment_wac(&wacdata->total, words, missed);
''', '''	wacdata->total.count += words;
	wacdata->total.missed += missed;
'''), ('''    if (wac->count == 0)
	fputs("  ------", f);
    else
	fprintf(f, "%8.2f", 100.0 * (wac->count - wac->missed) / wac->count);
''', '''    double right;
    if (wac->count)
    {
	right = wac->count - wac->missed;
	fprintf(f, "%8.2f", 100.0 * right / wac->count);
    }
    else
	fprintf(f, "  ------");
'''), ('''    long i;
    table_in_array(termtable);
    sort(termtable->count, termtable->array, compare_term);
    fprintf(f, "\\n%s\\n", title);
    write_wac(f, NULL);
    fputc('\\n', f);
    for (i = 0; i < termtable->count; i++)
    {
	write_wac(f, &termtable->array[i]->wac);
	fprintf(f, "%s\\n", termtable->array[i]->key);
    }
''', '''    Term **p, **end;
    table_in_array(termtable);
    sort(termtable->count, termtable->array, compare_term);
    fprintf(f, "\\n%s\\n", title);
    write_wac(f, NULL);
    fputs("\\n", f);
    p = (Term **) termtable->array;
    end = p + termtable->count;
    for (; p < end; p++)
    {
	write_wac(f, &(*p)->wac);
	fputs((*p)->key, f);
	putc('\\n', f);
    }
'''), ('''    short i;
    fprintf(f, "\\n%s\\n", title);
    write_wac(f, NULL);
    fprintf(f, "%s\\n", (excess ? "Occurs" : "Length"));
    for (i = 1; i <= limit; i++)
	if (wac[i].count > 0)
	{
	    write_wac(f, &wac[i]);
	    fprintf(f, "    %2d\\n", i);
	}
''', '''    short i;
    fprintf(f, "\\n%s\\n", title);
    write_wac(f, NULL);
    if (excess)
	fputs("Occurs\\n", f);
    else
	fputs("Length\\n", f);
    for (i = 1; i <= limit; i++)
    {
	if (wac[i].count <= 0)
	    continue;
	write_wac(f, wac + i);
	fprintf(f, "    %2d\\n", i);
    }
'''))
