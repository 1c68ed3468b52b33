import sys
R = sys.argv[1] + "/src/"
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, "w").write(s)

ed('ngram.c', ('''    if (!nstring)
	return(1);
    if (nstring[0] >= '1' && nstring[0] <= '0' + MAX_N && !nstring[1])
	return(nstring[0] - '0');
    error_string("invalid value", nstring);
''', '''    short value;
    if (nstring == NULL)
	return(1);
    value = nstring[0] - '0';
    if (value < 1 || value > MAX_N || nstring[1] != '\\0')
	error_string("invalid value", nstring);
    return(value);
'''), ('''    sequence = table_lookup(&seqtable, key);
    if (!sequence)
    {
	sequence = NEW(Sequence);
	sequence->key = copy_string(key);
	for (i = 0; i < n; i++)
	    sequence->value[i] = value[i];
	table_insert(&seqtable, sequence);
    }
    sequence->count++;
    seqtable.total_count++;
    if (suspect)
    {
	sequence->suspect++;
	seqtable.total_suspect++;
    }
''', '''    seqtable.total_count++;
    seqtable.total_suspect += (suspect ? 1 : 0);
    sequence = table_lookup(&seqtable, key);
    if (sequence == NULL)
    {
	sequence = NEW(Sequence);
	sequence->key = copy_string(key);
	memcpy(sequence->value, value, n * sizeof(Charvalue));
	table_insert(&seqtable, sequence);
    }
    sequence->count++;
    sequence->suspect += (suspect ? 1 : 0);
'''), ('''    for (i = 0; i < n && sequence1->value[i] == sequence2->value[i]; i++);
    if (i < n)
	return(sequence1->value[i] < sequence2->value[i] ? -1 : 1);
    return(0);
''', '''    for (i = 0; i < n; i++)
    {
	if (sequence1->value[i] < sequence2->value[i])
	    return(-1);
	if (sequence1->value[i] > sequence2->value[i])
	    return(1);
    }
    return(0);
'''), ('''    if (sequence1->count != sequence2->count)
	return(sequence1->count > sequence2->count ? -1 : 1);
    if (sequence1->suspect != sequence2->suspect)
	return(sequence1->suspect > sequence2->suspect ? -1 : 1);
    return(order_by_value(sequence1, sequence2));
''', '''    if (sequence1->count > sequence2->count)
	return(-1);
    if (sequence1->count < sequence2->count)
	return(1);
    if (sequence1->suspect == sequence2->suspect)
	return(order_by_value(sequence1, sequence2));
    return(sequence2->suspect < sequence1->suspect ? -1 : 1);
'''), ('''    long i;
    printf("   Count  Suspect\\n");
    for (i = 0; i < seqtable.count; i++)
	printf("%8ld %8ld   {%s}\\n", seqtable.array[i]->count,
	seqtable.array[i]->suspect, seqtable.array[i]->key);
''', '''    long i = 0;
    Sequence *sequence;
    puts("   Count  Suspect");
    while (i < seqtable.count)
    {
	sequence = seqtable.array[i++];
	printf("%8ld %8ld   {%s}\\n", sequence->count, sequence->suspect,
	sequence->key);
    }
'''))
ed('stopword.c', ('''    if (stopword)
	warning_string("duplicate stopword", key);
    else
    {
	stopword = NEW(Stopword);
	stopword->key = key;
	table_insert(&stopwordtable, stopword);
    }
''', '''    if (stopword != NULL)
    {
	warning_string("duplicate stopword", key);
	return;
    }
    stopword = NEW(Stopword);
    stopword->key = key;
    table_insert(&stopwordtable, stopword);
'''), ('''    Word *word;
    short i;
    if (initialized)
	error("stopwords already initialized");
    if (filename)
    {
	read_text(&text, filename, &textopt);
	find_words(&wordlist, &text);
	list_empty(&text, free);
	for (word = wordlist.first; word; word = word->next)
	    save_stopword(word->string);
    }
    else
	for (i = 0; i < sizeof(default_stopword) / sizeof(char *); i++)
	    save_stopword(default_stopword[i]);
    initialized = True;
''', '''    char **s;
    if (initialized)
	error("stopwords already initialized");
    initialized = True;
    if (filename)
	read_stopwords(filename);
    else
	for (s = default_stopword;
	s < default_stopword + sizeof(default_stopword) / sizeof(char *); s++)
	    save_stopword(*s);
'''), ('''void init_stopwords(filename)
''', '''static void read_stopwords(filename)
char *filename;
{
    Word *word;
    read_text(&text, filename, &textopt);
    find_words(&wordlist, &text);
    list_empty(&text, free);
    word = wordlist.first;
    while (word)
    {
	save_stopword(word->string);
	word = word->next;
    }
}
/**********************************************************************/

void init_stopwords(filename)
'''), ('''    return(table_lookup(&stopwordtable, string) ? True : False);
''', '''    return(table_lookup(&stopwordtable, string) != NULL);
'''))
