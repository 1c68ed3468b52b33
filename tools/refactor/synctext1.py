import sys
def sub(p, pairs):
    p=sys.argv[1]+'/src/'+p
    s=open(p).read()
    for a,b in pairs:
        if s.count(a)<1: print('NOT FOUND', a); continue
        s=s.replace(a,b)
    open(p,'w').write(s)

sub('synctext.c',[
("""	for (i = sync->substr->start; i <= sync->substr->stop; i++)
	{
	    char_to_string(show_suspect & text->array[i]->suspect,
	    text->array[i]->value, string, False);
	    printf("%s", string);
	}
	if (sync->match)
	    putchar('}');
""","""	i = sync->substr->start;
	while (i <= sync->substr->stop)
	    show_char(text->array[i++]);
	if (sync->match)
	    fputs("}", stdout);
"""),
("""    Sync *sync;
    long i;
    char string[STRING_SIZE];
    write_separator();
    putchar(NEWLINE);
    for (sync = synclist->first; sync; sync = sync->next)
    {
	if (sync->match)
	    printf""","""    Sync *sync;
    long i;
    write_separator();
    putchar(NEWLINE);
    for (sync = synclist->first; sync; sync = sync->next)
    {
	if (sync->match)
	    printf"""),
("""void write_transposed(synclist, text)""","""static void show_char(c)
Char *c;
{
    char string[STRING_SIZE];
    char_to_string((show_suspect && c->suspect ? True : False), c->value, string, False);
    fputs(string, stdout);
}

static Boolean suspect_anywhere(sync, num_text, text, i)
Sync *sync;
short num_text;
Text *text;
long i;
{
    long j;
    if (!show_suspect)
	return(False);
    for (j = 0; j < num_text; j++)
	if (text[j].array[sync->substr[j].start + i]->suspect)
	    return(True);
    return(False);
}

void write_transposed(synclist, text)"""),
("""	if (sync->match)
	    for (i = 0; i < sync->substr[0].length; i++)
	    {
		suspect = False;
		if (show_suspect)
		    for (j = 0; j < num_text && !suspect; j++)
			if (text[j].array[sync->substr[j].start + i]->suspect)
			    suspect = True;
		char_to_string(suspect,
		text[0].array[sync->substr[0].start + i]->value, string, False);
		printf("%s", string);
	    }
	else
	    printf("{%ld}", ++footnote);
""","""    {
	if (!sync->match)
	{
	    printf("{%ld}", footnote);
	    footnote++;
	    continue;
	}
	for (i = 0; i < sync->substr[0].length; i++)
	{
	    Char *c = text->array[sync->substr->start + i];
	    char_to_string(suspect_anywhere(sync, num_text, text, i), c->value, string, False);
	    printf("%s", string);
	}
    }
"""),
("""    long i, j, footnote = 0;
    Boolean suspect;
""","""    long i, footnote = 1;
"""),
("""		    char_to_string(show_suspect & text[i].array[j]->suspect,
		    text[i].array[j]->value, string, False);
		    printf("%s", string);
		    if""","""		    show_char(text[i].array[j]);
		    if"""),
("""    long i, j, maxlen = 0, footnote = 0;
    char format[20], string[STRING_SIZE];""","""    long i, j, maxlen = 0, footnote = 0;
    char format[20];"""),
("""	if (!sync->match)
	{
	    write_separator();""","""    {
	if (sync->match)
	    continue;
	    write_separator();"""),
("""		printf(format, filename[i]);
		printf(" {");
""","""		printf("%-*s {", (int) maxlen, filename[i]);
"""),
])
