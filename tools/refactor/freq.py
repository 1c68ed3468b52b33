import sys
def sub(p, pairs):
    p=sys.argv[1]+'/src/'+p
    s=open(p).read()
    for a,b in pairs:
        if s.count(a)<1: print('NOT FOUND', a); continue
        s=s.replace(a,b)
    open(p,'w').write(s)
sub('ngram.c',[("""    sequence->count++;
    seqtable.total_count++;
    if (suspect)
    {
	sequence->suspect++;
	seqtable.total_suspect++;
    }
}""","""    count_sequence(sequence, suspect);
}"""),("""void add_sequence(key, value, suspect)""","""static void count_sequence(sequence, suspect)
Sequence *sequence;
Boolean suspect;
{
    if (suspect)
    {
	seqtable.total_suspect += 1;
	sequence->suspect += 1;
    }
    seqtable.total_count += 1;
    sequence->count += 1;
}

void add_sequence(key, value, suspect)"""),
("""    for (start = text.first; start; start = start->next)
    {
	key[0] = '\\0';
	suspect = False;
	for (i = 0, c = start; i < n; i++, c = c->next)
	{
	    if (!c)
		return;
	    char_to_string(False, c->value, string, True);
	    strcat(key, string);
	    value[i] = c->value;
	    if (c->suspect)
		suspect = True;
	}
	add_sequence(key, value, suspect);
    }""","""    start = text.first;
    while (start != NULL)
    {
	suspect = False;
	strcpy(key, "");
	c = start;
	for (i = 0; i < n && c != NULL; i++)
	{
	    value[i] = c->value;
	    char_to_string(False, value[i], string, True);
	    strcat(key, string);
	    suspect = suspect || c->suspect;
	    c = c->next;
	}
	if (i < n)
	    break;
	add_sequence(key, value, suspect);
	start = start->next;
    }"""),
("""    for (i = 0; i < seqtable.count; i++)
	printf("%8ld %8ld   {%s}\\n", seqtable.array[i]->count,
	seqtable.array[i]->suspect, seqtable.array[i]->key);""","""    for (i = 0; i < seqtable.count; i++)
    {
	Sequence *sequence = seqtable.array[i];
	printf("%8ld %8ld", sequence->count, sequence->suspect);
	printf("   {%s}\\n", sequence->key);
    }""")])
sub('wordfreq.c',[("""    for (word = wordlist.first; word; word = word->next)
	add_term(&termtable, word->string, 1, 0);
    list_empty(&text, free);
    list_empty(&wordlist, free_word);""","""    list_empty(&text, free);
    word = wordlist.first;
    while (word)
    {
	char *string = word->string;
	word = word->next;
	add_term(&termtable, string, 1, 0);
    }
    list_empty(&wordlist, free_word);"""),("""    long i, total = 0;
    printf("   Count\\n");
    for (i = 0; i < termtable.count; i++)
    {
	printf("%8ld   %s\\n", termtable.array[i]->wac.count,
	termtable.array[i]->key);
	total += termtable.array[i]->wac.count;
    }
    printf("%8ld   Total\\n", total);""","""    long i, total = 0, count;
    printf("   Count\\n");
    for (i = 0; i < termtable.count; i++)
    {
	count = termtable.array[i]->wac.count;
	total += count;
	printf("%8ld   %s\\n", count, termtable.array[i]->key);
    }
    printf("%8ld   Total\\n", total);"""),
("""    for (i = 0; i < argc; i++)
	process_file(argv[i]);""","""    while (argc-- > 0)
	process_file(*argv++);""")])
