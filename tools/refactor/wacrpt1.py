import sys
def sub(p, pairs):
    p=sys.argv[1]+'/src/'+p
    s=open(p).read()
    for a,b in pairs:
        if s.count(a)<1: print('NOT FOUND', a); continue
        s=s.replace(a,b)
    open(p,'w').write(s)
sub('wacrpt.c',[("""    wac->count  += count;
    wac->missed += missed;""","""    wac->missed = wac->missed + missed;
    wac->count = count + wac->count;"""),
("""    if (!term)
    {
	term = NEW(Term);
	term->key = copy_string(key);
	table_insert(termtable, term);
    }
    increment_wac(&term->wac, count, missed);
}""","""    if (term != NULL)
    {
	increment_wac(&term->wac, count, missed);
	return;
    }
    term = NEW(Term);
    term->key = copy_string(key);
    term->wac.count = count;
    term->wac.missed = missed;
    table_insert(termtable, term);
}"""),
("""	    index = atoi(&line[OFFSET]);
	    if (index == 0) {
		if (strcmp(&line[OFFSET], TOTAL) == 0)
		    total_count = count;
		else /* excess */
		    index = MAX_OCCURRENCES + 1;
	    }
""","""	    if (strcmp(&line[OFFSET], TOTAL) == 0) {
		index = 0;
		total_count = count;
	    }
	    else {
		index = atoi(&line[OFFSET]);
		if (index == 0)
		    index = MAX_OCCURRENCES + 1;
	    }
"""),
("""    if (read_line(f) && read_line(f))
	while (read_two(f, &count, &missed))
	{
	    line[strlen(line) - 1] = '\\0';
	    add_term(termtable, &line[OFFSET], count, missed);
	}
""","""    char *word;
    if (!read_line(f) || !read_line(f))
	return;
    for (;;)
    {
	if (!read_two(f, &count, &missed))
	    break;
	word = line + OFFSET;
	word[strlen(word) - 1] = '\\0';
	add_term(termtable, word, count, missed);
    }
"""),
("""    short i;
    fprintf(f, "\\n%s\\n", title);
    write_wac(f, NULL);
    fprintf(f, "%s\\n", (excess ? "Occurs" : "Length"));
    for (i = 1; i <= limit; i++)
	if (wac[i].count > 0)
	{
	    write_wac(f, &wac[i]);
	    fprintf(f, "    %2d\\n", i);
	}
""","""    short i = 0;
    Wac *w;
    fprintf(f, "\\n%s\\n", title);
    write_wac(f, NULL);
    fputs(excess ? "Occurs\\n" : "Length\\n", f);
    while (i < limit)
    {
	w = &wac[++i];
	if (w->count <= 0)
	    continue;
	write_wac(f, w);
	fprintf(f, "    %2d\\n", i);
    }
"""),
("""    for (i = 0; i < termtable->count; i++)
    {
	write_wac(f, &termtable->array[i]->wac);
	fprintf(f, "%s\\n", termtable->array[i]->key);
    }
""","""    for (i = 0; i < termtable->count; i++)
    {
	Term *t = termtable->array[i];
	write_wac(f, &t->wac);
	fputs(t->key, f);
	fputc('\\n', f);
    }
"""),
("""    fprintf(f, "%s%s", TITLE, DIVIDER);
""","""    fputs(TITLE, f);
    fputs(DIVIDER, f);
"""),
])
