import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('accuracy.c', ('''    long i, j;
    char buffer[2][MAX_DISPLAY + 4], string[STRING_SIZE];
    for (i = 0; i < 2; i++)
    {
	buffer[i][0] = '\\0';
	for (j = sync->substr[i].start; j <= sync->substr[i].stop; j++)
	{
	    char_to_string(False, text[i].array[j]->value, string, True);
	    if (strlen(buffer[i]) + strlen(string) > MAX_DISPLAY)
	    {
		strcat(buffer[i], "...");
		break;
	    }
	    strcat(buffer[i], string);
	}
    }
''', '''    long i, j, used, more;
    char buffer[2][MAX_DISPLAY + 4], string[STRING_SIZE];
    for (i = 0; i < 2; i++)
    {
	used = 0;
	buffer[i][0] = '\\0';
	j = sync->substr[i].start;
	while (j <= sync->substr[i].stop)
	{
	    char_to_string(False, text[i].array[j]->value, string, True);
	    more = strlen(string);
	    if (used + more > MAX_DISPLAY)
	    {
		strcpy(buffer[i] + used, "...");
		break;
	    }
	    strcpy(&buffer[i][used], string);
	    used += more;
	    j++;
	}
    }
'''))
ed('ngram.c', ('''void process_file(filename)
char *filename;
{
    Char *start, *c;
    char key[MAX_N * STRING_SIZE], string[STRING_SIZE];
    Boolean suspect;
    short i;
    Charvalue value[MAX_N];
''', '''static Boolean sequence_at(c, key, value, suspect)
Char *c;
char *key;
Charvalue *value;
Boolean *suspect;
{
    char string[STRING_SIZE];
    short i;
    *suspect = False;
    *key = '\\0';
    for (i = 0; i < n; i++)
    {
	if (!c)
	    return(False);
	char_to_string(False, c->value, string, True);
	strcat(key, string);
	value[i] = c->value;
	if (c->suspect)
	    *suspect = True;
	c = c->next;
    }
    return(True);
}

void process_file(filename)
char *filename;
{
    Char *start;
    char key[MAX_N * STRING_SIZE];
    Boolean suspect;
    Charvalue value[MAX_N];
'''), ('''	key[0] = '\\0';
	suspect = False;
	for (i = 0, c = start; i < n; i++, c = c->next)
	{
	    if (!c)
		return;
	    char_to_string(False, c->value, string, True);
	    strcat(key, string);
	    value[i] = c->value;
	    if (c->suspect)
		suspect = True;
	}
''', '''	if (!sequence_at(start, key, value, &suspect))
	    return;
'''))
ed('text.c', ('''	} else if (value < 256) {
		sprintf(&string[i], "<%02X>", value);
	} else {
		sprintf(&string[i], "<%04X>", value);
	}
''', '''	} else {
		const char *form = value > 255 ? "<%04X>" : "<%02X>";
		sprintf(string + i, form, value);
	}
'''))
ed('editop.c', ('''	char label[20];
	sprintf(label, "moved %ld", *sync->match);
''', '''	char label[30];
	strcpy(label, "moved ");
	sprintf(label + strlen(label), "%ld", *sync->match);
'''))
ed('edorpt.c', ('''    return(fgets(line, sizeof(line) - 1, f) ? True : False);
''', '''    char *p = fgets(line, 99, f);
    return(p != NULL);
'''))
