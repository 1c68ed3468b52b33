import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
for t, T in (('accsum', 'accrpt'), ('wordaccsum', 'wacrpt')):
    d = 'accdata' if t == 'accsum' else 'wacdata'
    ed(t + '.c', ('''    int i;
    initialize''', '''    initialize'''), ('''    for (i = 0; i < argc; i++)
	read_%s(&%s, argv[i]);
    write''' % (T, d), '''    while (argc-- > 0)
	read_%s(&%s, *argv++);
    write''' % (T, d)))
ed('groupacc.c', ('''    if (count == 0)
	fprintf(f, "  ------   ");
    else
	fprintf(f, "%8.2f   ", 100.0 * (count - missed) / count);
''', '''    if (count != 0)
	fprintf(f, "%8.2f", 100.0 * (count - missed) / count);
    else
	fputs("  ------", f);
    fputs("   ", f);
'''), ('''    long total_count = 0, total_missed = 0, count, missed;
    Char *c;
''', '''    Accclass total, *class;
    Char *c;
    total.count = total.missed = 0;
'''), ('''	if (accdata.small_class[c->value].count > 0 && c->value != BLANK &&
	c->value != NEWLINE)
	{
	    count  = accdata.small_class[c->value].count;
	    missed = accdata.small_class[c->value].missed;
	    write_line(f, count, missed);
	    char_to_string(False, c->value, buffer, True);
	    fprintf(f, "{%s}\\n", buffer);
	    total_count  += count;
	    total_missed += missed;
	}
    write_line(f, total_count, total_missed);
''', '''    {
	class = &accdata.small_class[c->value];
	if (!shown(c->value, class))
	    continue;
	total.count  += class->count;
	total.missed += class->missed;
	char_to_string(False, c->value, buffer, True);
	write_line(f, class->count, class->missed);
	fprintf(f, "{%s}\\n", buffer);
    }
    write_line(f, total.count, total.missed);
'''), ('''void write_report(filename)
''', '''static Boolean shown(value, class)
Charvalue value;
Accclass *class;
{
    if (value == BLANK || value == NEWLINE)
	return(False);
    return(class->count > 0 ? True : False);
}

void write_report(filename)
'''))
ed('nonstopacc.c', ('''    Term *term;
    term = table_lookup(termtable, string);
    if (term)
    {
	count  -= term->wac.count;
	missed -= term->wac.missed;
    }
''', '''    Term *term = table_lookup(termtable, string);
    if (!term)
	return;
    count  -= term->wac.count;
    missed -= term->wac.missed;
'''), ('''    Word *word;
    count  = wacdata.total.count;
    missed = wacdata.total.missed;
    if (count == 0)
	return;
    write_line();
    for (word = wordlist.first; word; word = word->next)
    {
	find_stopword(&wacdata.stopword_table, word->string);
	find_stopword(&wacdata.non_stopword_table, word->string);
	if (count == 0)
	    return;
	write_line();
    }
''', '''    Word *word = wordlist.first;
    count  = wacdata.total.count;
    missed = wacdata.total.missed;
    if (!count)
	return;
    write_line();
    while (word)
    {
	find_stopword(&wacdata.non_stopword_table, word->string);
	find_stopword(&wacdata.stopword_table, word->string);
	if (!count)
	    break;
	write_line();
	word = word->next;
    }
'''))
