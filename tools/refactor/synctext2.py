import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('synctext.c', ('''    short i;
    for (i = 1; i < 80; i++)
	putchar('=');
    putchar(NEWLINE);
''', '''    int i = 79;
    while (i-- > 0)
	putchar('=');
    printf("\\n");
'''), ('''	if (sync->match)
	    printf("{%ld:", *sync->match);
	for (i = sync->substr->start; i <= sync->substr->stop; i++)
	{
	    char_to_string(show_suspect & text->array[i]->suspect,
	    text->array[i]->value, string, False);
	    printf("%s", string);
	}
	if (sync->match)
	    putchar('}');
    }
''', '''	Boolean matched = (sync->match ? True : False);
	if (matched)
	    printf("{%ld:", *sync->match);
	i = sync->substr->start;
	while (i <= sync->substr->stop)
	    write_char(text->array[i++]);
	if (matched)
	    printf("}");
    }
'''), ('''void write_transposed(''', '''static void write_char(c)
Char *c;
{
    char string[STRING_SIZE];
    char_to_string(show_suspect & c->suspect, c->value, string, False);
    fputs(string, stdout);
}

static Boolean any_suspect(sync, num_text, text, i)
Sync *sync;
short num_text;
Text *text;
long i;
{
    long j;
    for (j = 0; j < num_text; j++)
	if (text[j].array[sync->substr[j].start + i]->suspect)
	    return(True);
    return(False);
}

void write_transposed('''), ('''    long i;
    char string[STRING_SIZE];
    write_separator();
    putchar(NEWLINE);
''', '''    long i;
    write_separator();
    putchar(NEWLINE);
'''), ('''    long i, j, footnote = 0;
    Boolean suspect;
    char''', '''    long i, footnote = 0;
    Boolean suspect;
    Char *c;
    char'''), ('''    for (sync = synclist->first; sync; sync = sync->next)
	if (sync->match)
	    for (i = 0; i < sync->substr[0].length; i++)
	    {
		suspect = False;
		if (show_suspect)
		    for (j = 0; j < num_text && !suspect; j++)
			if (text[j].array[sync->substr[j].start + i]->suspect)
			    suspect = True;
		char_to_string(suspect,
		text[0].array[sync->substr[0].start + i]->value, string, False);
		printf("%s", string);
	    }
	else
	    printf("{%ld}", ++footnote);
''', '''    for (sync = synclist->first; sync; sync = sync->next)
    {
	if (!sync->match)
	{
	    footnote++;
	    printf("{%ld}", footnote);
	    continue;
	}
	for (i = 0; i < sync->substr->length; i++)
	{
	    c = text->array[i + sync->substr->start];
	    suspect = (show_suspect ? any_suspect(sync, num_text, text, i) : False);
	    char_to_string(suspect, c->value, string, False);
	    printf("%s", string);
	}
    }
'''), ('''    char format[20], string[STRING_SIZE];
''', '''    char format[20];
    Char *c;
'''), ('''	maxlen = max(maxlen, strlen(filename[i]));
''', '''    {
	long length = strlen(filename[i]);
	if (length > maxlen)
	    maxlen = length;
    }
'''), ('''		    char_to_string(show_suspect & text[i].array[j]->suspect,
		    text[i].array[j]->value, string, False);
		    printf("%s", string);
		    if (text[i].array[j]->value == NEWLINE)
''', '''		    c = text[i].array[j];
		    write_char(c);
		    if (c->value == NEWLINE)
'''), ('''    if (transpose)
    {
	transpose_sync(&synclist1, &synclist2, &text[0], &text[1]);
	write_transposed(&synclist1, &text[0]);
	write_transposed(&synclist2, &text[1]);
    }
    else
    {
	if (heuristic || argc > 2)
	    synchronize(&synclist1, argc, text);
	else
	    fastukk_sync(&synclist1, text);
''', '''    if (transpose)
    {
	transpose_sync(&synclist1, &synclist2, text, text + 1);
	write_transposed(&synclist1, text);
	write_transposed(&synclist2, text + 1);
    }
    else
    {
	if (argc == 2 && !heuristic)
	    fastukk_sync(&synclist1, text);
	else
	    synchronize(&synclist1, argc, text);
'''))
