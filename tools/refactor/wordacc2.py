import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('wordacc.c', ('''    long i, j = 0;
    array = NEW_ARRAY(wordlist[index].count + 1, Symbol *);
    for (i = 0; i < wordlist[index].count; i++)
	if (symbol[index][i].id->found[1 - index])
	    array[j++] = &symbol[index][i];
    *length = j;
    return(array);
''', '''    long i, n = wordlist[index].count;
    Symbol *s = symbol[index];
    array = NEW_ARRAY(n + 1, Symbol *);
    *length = 0;
    for (i = 0; i < n; i++, s++)
    {
	if (!s->id->found[!index])
	    continue;
	array[*length] = s;
	(*length)++;
    }
    return(array);
'''), ('''	symbol[i] = NEW_ARRAY(wordlist[i].count + 1, Symbol);
	j = 0;
	for (word = wordlist[i].first; word; word = word->next)
	{
	    id = table_lookup(&idtable, word->string);
	    if (!id)
	    {
		id = NEW(Id);
		id->key = (char *) word->string;
		table_insert(&idtable, id);
	    }
	    id->found[i] = True;
	    symbol[i][j++].id = id;
	}
''', '''	symbol[i] = NEW_ARRAY(wordlist[i].count + 1, Symbol);
	for (word = wordlist[i].first, j = 0; word; word = word->next, j++)
	{
	    id = find_id(word->string);
	    symbol[i][j].id = id;
	    id->found[i] = True;
	}
'''), ('''void setup(filename)
''', '''static Id *find_id(string)
char *string;
{
    Id *id = table_lookup(&idtable, string);
    if (id)
	return(id);
    id = NEW(Id);
    id->key = string;
    table_insert(&idtable, id);
    return(id);
}

void setup(filename)
'''), ('''    long i, count, missed;
    table_in_array(termtable);
    for (i = 0; i < termtable->count; i++)
    {
	count  = termtable->array[i]->wac.count;
	missed = termtable->array[i]->wac.missed;
	increment_wac(&wacdata.total, count, missed);
	increment_wac(&length[0], count, missed);
	increment_wac(&length[word_length(termtable->array[i]->key)], count,
	missed);
	if (occurs)
	{
	    increment_wac(&occurs[0], 1, (count == missed ? 1 : 0));
	    increment_wac(&occurs[min(count, MAX_OCCURRENCES + 1)], 1,
	    (count == missed ? 1 : 0));
	}
    }
''', '''    long i, count, missed, all;
    Term *term;
    table_in_array(termtable);
    i = 0;
    while (i < termtable->count)
    {
	term = termtable->array[i++];
	count  = term->wac.count;
	missed = term->wac.missed;
	increment_wac(&length[word_length(term->key)], count, missed);
	increment_wac(length, count, missed);
	increment_wac(&wacdata.total, count, missed);
	if (!occurs)
	    continue;
	all = missed == count;
	increment_wac(occurs, 1L, all);
	increment_wac(occurs + (count > MAX_OCCURRENCES ? MAX_OCCURRENCES + 1 : count), 1L, all);
    }
'''), ('''    for (i = 0; i < wordlist[0].count; i++)
    {
	recognized = True;
	for (j = 0; j < MAX_PHRASELENGTH && i + j < wordlist[0].count; j++)
	{
	    recognized &= symbol[0][i + j].recognized;
	    increment_wac(&wacdata.phrase[j + 1], 1, (recognized ? 0 : 1));
	}
    }
''', '''    for (i = 0; i < wordlist[0].count; i++)
    {
	long limit = wordlist[0].count - i;
	if (limit > MAX_PHRASELENGTH)
	    limit = MAX_PHRASELENGTH;
	recognized = True;
	for (j = 1; j <= limit; j++)
	{
	    if (!symbol[0][i + j - 1].recognized)
		recognized = False;
	    increment_wac(&wacdata.phrase[j], 1, !recognized);
	}
    }
'''), ('''    long i;
    for (i = 0; i < wordlist[0].count; i++)
	add_term((is_stopword(symbol[0][i].id->key) ?
	&wacdata.stopword_table : &wacdata.non_stopword_table),
	symbol[0][i].id->key, 1, (symbol[0][i].recognized ? 0 : 1));
''', '''    Symbol *s, *end = symbol[0] + wordlist[0].count;
    for (s = symbol[0]; s < end; s++)
	add_word(s);
'''), ('''void determine_wacdata()
''', '''static void add_word(s)
Symbol *s;
{
    Termtable *table;
    if (is_stopword(s->id->key))
	table = &wacdata.stopword_table;
    else
	table = &wacdata.non_stopword_table;
    if (s->recognized)
	add_term(table, s->id->key, 1, 0);
    else
	add_term(table, s->id->key, 1, 1);
}

void determine_wacdata()
'''))
