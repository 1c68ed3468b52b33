import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('groupacc.c', ('''    for (c = text.first; c; c = c->next)
	if (accdata.small_class[c->value].count > 0 && c->value != BLANK &&
	c->value != NEWLINE)
	{
	    count  = accdata.small_class[c->value].count;
	    missed = accdata.small_class[c->value].missed;
	    write_line(f, count, missed);
	    char_to_string(False, c->value, buffer, True);
	    fprintf(f, "{%s}\\n", buffer);
	    total_count  += count;
	    total_missed += missed;
	}
''', '''    c = text.first;
    while (c != NULL)
    {
	if (c->value == BLANK || c->value == NEWLINE)
	{
	    c = c->next;
	    continue;
	}
	count  = accdata.small_class[c->value].count;
	missed = accdata.small_class[c->value].missed;
	if (count > 0)
	{
	    total_missed += missed;
	    total_count  += count;
	    write_line(f, count, missed);
	    write_name(f, c->value);
	}
	c = c->next;
    }
'''), ('''void write_report(filename)
''', '''static void write_name(f, value)
FILE *f;
Charvalue value;
{
    char buffer[STRING_SIZE];
    char_to_string(False, value, buffer, True);
    fprintf(f, "{%s}\\n", buffer);
}

void write_report(filename)
'''), ('''    Char *c;
    char buffer[STRING_SIZE];
''', '''    Char *c;
'''))
ed('nonstopacc.c', ('''    Term *term;
    term = table_lookup(termtable, string);
    if (term)
    {
	count  -= term->wac.count;
	missed -= term->wac.missed;
    }
}
''', '''    Term *term = table_lookup(termtable, string);
    if (!term)
	return;
    missed -= term->wac.missed;
    count -= term->wac.count;
}

static void remove_word(string)
char *string;
{
    find_stopword(&wacdata.non_stopword_table, string);
    find_stopword(&wacdata.stopword_table, string);
}
'''), ('''void write_line()
{
    static long linenum = 0;
    printf("%3ld %6.2f\\n", linenum++, 100.0 * (count - missed) / count);
}
''', '''static void write_line(linenum)
long linenum;
{
    double percent = 100.0 * (count - missed) / count;
    printf("%3ld %6.2f\\n", linenum, percent);
}
'''), ('''    Word *word;
    count  = wacdata.total.count;
    missed = wacdata.total.missed;
    if (count == 0)
	return;
    write_line();
    for (word = wordlist.first; word; word = word->next)
    {
	find_stopword(&wacdata.stopword_table, word->string);
	find_stopword(&wacdata.non_stopword_table, word->string);
	if (count == 0)
	    return;
	write_line();
    }
''', '''    Word *word;
    long line = 0;
    count  = wacdata.total.count;
    missed = wacdata.total.missed;
    if (count)
	write_line(line++);
    for (word = wordlist.first; word && count != 0; word = word->next)
    {
	remove_word(word->string);
	if (count != 0)
	    write_line(line++);
    }
'''))
