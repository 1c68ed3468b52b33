import sys
def sub(p, pairs):
    p=sys.argv[1]+'/src/'+p
    s=open(p).read()
    for a,b in pairs:
        if s.count(a)<1: print('NOT FOUND', a); continue
        s=s.replace(a,b)
    open(p,'w').write(s)
sub('stopword.c',[("""    stopword = table_lookup(&stopwordtable, key);
    if (stopword)
	warning_string("duplicate stopword", key);
    else
    {
	stopword = NEW(Stopword);
	stopword->key = key;
	table_insert(&stopwordtable, stopword);
    }
""","""    if (table_lookup(&stopwordtable, key) != NULL)
    {
	warning_string("duplicate stopword", key);
	return;
    }
    stopword = NEW(Stopword);
    stopword->key = key;
    table_insert(&stopwordtable, stopword);
"""),("""    if (filename)
    {
	read_text(&text, filename, &textopt);
	find_words(&wordlist, &text);
	list_empty(&text, free);
	for (word = wordlist.first; word; word = word->next)
	    save_stopword(word->string);
    }
    else
	for (i = 0; i < sizeof(default_stopword) / sizeof(char *); i++)
	    save_stopword(default_stopword[i]);
""","""    if (!filename)
    {
	char **p;
	p = default_stopword;
	while (p < default_stopword + sizeof(default_stopword) / sizeof(char *))
	    save_stopword(*p++);
    }
    else
	load_stopwords(filename);
"""),("""void init_stopwords(filename)""","""static void load_stopwords(filename)
char *filename;
{
    Word *word;
	read_text(&text, filename, &textopt);
	find_words(&wordlist, &text);
	list_empty(&text, free);
	word = wordlist.first;
	while (word != NULL)
	{
	    save_stopword(word->string);
	    word = word->next;
	}
}

void init_stopwords(filename)"""),("""    return(table_lookup(&stopwordtable, string) ? True : False);""","""    if (table_lookup(&stopwordtable, string))
	return(True);
    return(False);"""),("{ False, False, 0, True, True, True }","{ False, False, 0, True, True, True, False }")])
sub('wordacc.c',[("""    for (i = 0; i < wordlist[0].count; i++)
	add_term((is_stopword(symbol[0][i].id->key) ?
	&wacdata.stopword_table : &wacdata.non_stopword_table),
	symbol[0][i].id->key, 1, (symbol[0][i].recognized ? 0 : 1));
""","""    for (i = 0; i < wordlist[0].count; i++)
    {
	Symbol *s = symbol[0] + i;
	Termtable *t;
	char *key = s->id->key;
	long missed = 1;
	if (s->recognized)
	    missed = 0;
	t = &wacdata.non_stopword_table;
	if (is_stopword(key))
	    t = &wacdata.stopword_table;
	add_term(t, key, 1, missed);
    }
"""),("""	count  = termtable->array[i]->wac.count;
	missed = termtable->array[i]->wac.missed;
""","""	Term *term = termtable->array[i];
	missed = term->wac.missed;
	count  = term->wac.count;
"""),("""	if (occurs)
	{
	    increment_wac(&occurs[0], 1, (count == missed ? 1 : 0));
	    increment_wac(&occurs[min(count, MAX_OCCURRENCES + 1)], 1,
	    (count == missed ? 1 : 0));
	}
""","""	if (occurs)
	{
	    long all = (count == missed);
	    long k = count;
	    if (k > MAX_OCCURRENCES)
		k = MAX_OCCURRENCES + 1;
	    increment_wac(&occurs[k], 1, all);
	    increment_wac(&occurs[0], 1, all);
	}
"""),("""	recognized = True;
	for (j = 0; j < MAX_PHRASELENGTH && i + j < wordlist[0].count; j++)
	{
	    recognized &= symbol[0][i + j].recognized;
	    increment_wac(&wacdata.phrase[j + 1], 1, (recognized ? 0 : 1));
	}
""","""	recognized = True;
	j = 1;
	while (j <= MAX_PHRASELENGTH && i + j <= wordlist[0].count)
	{
	    if (!symbol[0][i + j - 1].recognized)
		recognized = False;
	    increment_wac(&wacdata.phrase[j], 1, (recognized ? 0 : 1));
	    j++;
	}
"""),("""    for (; *key; key++)
	if ((*key & 0xC0) != 0x80) /* not a UTF-8 continuation byte */
	    length++;
    return(min(length, MAX_WORDLENGTH));
""","""    while (*key != '\\0')
    {
	length += ((*key++ & 0xC0) == 0x80 ? 0 : 1);
    }
    if (length > MAX_WORDLENGTH)
	length = MAX_WORDLENGTH;
    return(length);
""")])
