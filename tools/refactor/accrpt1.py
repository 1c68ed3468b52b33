import sys
def sub(p, pairs):
    p=sys.argv[1]+'/src/'+p
    s=open(p).read()
    for a,b in pairs:
        if s.count(a)<1: print('NOT FOUND', a); continue
        s=s.replace(a,b)
    open(p,'w').write(s)
sub('accrpt.c',[("""    Charvalue value = INVALID_CHARVALUE;
    char *next_byte = line;

    /* Check for start delimiter at byte 0. */
    if (*next_byte != '{') {
        return INVALID_CHARVALUE;
    }
    next_byte++;
""","""    Charvalue value = INVALID_CHARVALUE;
    char *next_byte = line + 1;

    if (line[0] != '{')
        return INVALID_CHARVALUE;
"""),("""            if (next_byte[1] == '\\\\' && next_byte[2] == 'n') {
                value = NEWLINE;
                next_byte += 3; /* consume three bytes: <\\n */
            } else {""","""            if (strncmp(next_byte, "<\\\\n", 3) == 0) {
                next_byte += 3; /* consume three bytes: <\\n */
                value = NEWLINE;
            } else {"""),("""    if (*next_byte == '}') {
        return value;
    }

    return INVALID_CHARVALUE;
""","""    return *next_byte == '}' ? value : INVALID_CHARVALUE;
"""),("""        while (read_line(f) && line[0] != NEWLINE);
        if (errors > 0 && read_line(f))
            while (read_two(f, &value1, &value2)) {
                /* TODO: bug here: does not handle UTF-8 or <bracket>
                 * <escaped> or {<} properly... */
                add_conf(accdata, &line[CONF_OFFSET], value1, value2);
            }
        if (characters > 0 && read_line(f))
            while (read_two(f, &value1, &value2)) {
                value3 = read_char(line + CLASS_OFFSET);
                if (value3 == INVALID_CHARVALUE) {
                    error_string("invalid character in", (filename ? filename : "stdin"));
                }
                add_class(accdata, value3, value1, value2);
            }
    }
    else
        error_string("invalid format in", (filename ? filename : "stdin"));
""","""        skip_section(f);
        if (errors > 0)
            read_confusions(accdata, f);
        if (characters > 0)
            read_characters(accdata, f, filename);
    }
    else
        error_string("invalid format in", (filename ? filename : "stdin"));
"""),("""    long characters, errors, value1, value2;
    Charvalue value3;
    f = open""","""    long characters, errors, value1;
    f = open"""),("""void read_accrpt(accdata, filename)""","""static void skip_section(f)
FILE *f;
{
    for (;;) {
        if (!read_line(f))
            return;
        if (strcmp(line, "\\n") == 0)
            return;
    }
}

static void read_confusions(accdata, f)
Accdata *accdata;
FILE *f;
{
    long n, marked;
    if (!read_line(f))
        return;
    for (;;) {
        if (!read_two(f, &n, &marked))
            break;
        add_conf(accdata, line + CONF_OFFSET, n, marked);
    }
}

static void read_characters(accdata, f, filename)
Accdata *accdata;
FILE *f;
char *filename;
{
    long n, missed;
    int more = read_line(f);
    while (more) {
        Charvalue c;
        more = read_two(f, &n, &missed);
        if (more) {
            c = read_char(&line[CLASS_OFFSET]);
            if (c == INVALID_CHARVALUE)
                error_string("invalid character in", (filename ? filename : "stdin"));
            add_class(accdata, c, n, missed);
        }
    }
}

void read_accrpt(accdata, filename)"""),("""    fprintf(f, "%8ld %8ld ", class->count, class->missed);
    write_pct(f, class->count - class->missed, class->count);
    if (string)
        fprintf(f, "   %s\\n", string);
    else
    {
        char_to_string(False, value, buffer, True);
        fprintf(f, "   {%s}\\n", buffer);
    }
""","""    fprintf(f, "%8ld", class->count);
    fprintf(f, " %8ld ", class->missed);
    write_pct(f, class->count - class->missed, class->count);
    fputs("   ", f);
    if (!string)
    {
        char_to_string(False, value, buffer, True);
        putc('{', f);
        fputs(buffer, f);
        fputs("}\\n", f);
        return;
    }
    fprintf(f, "%s\\n", string);
"""),("""        fprintf(f, "\\n   Count   Missed   %%Right\\n");
        for (i = 0; i < NUM_CHARVALUES; i++)
            if (accdata->small_class[i].count > 0)
                write_class(f, &accdata->small_class[i], NULL, i);
""","""        Accclass *class = accdata->small_class;
        fprintf(f, "\\n   Count   Missed   %%Right\\n");
        for (i = 0; i < NUM_CHARVALUES; i++, class++)
        {
            if (class->count <= 0)
                continue;
            write_class(f, class, NULL, i);
        }
""")])
sub('accuracy.c',[("""    long i, j;
    char buffer[2][MAX_DISPLAY + 4], string[STRING_SIZE];
    for (i = 0; i < 2; i++)
    {
	buffer[i][0] = '\\0';
	for (j = sync->substr[i].start; j <= sync->substr[i].stop; j++)
	{
	    char_to_string(False, text[i].array[j]->value, string, True);
	    if (strlen(buffer[i]) + strlen(string) > MAX_DISPLAY)
	    {
		strcat(buffer[i], "...");
		break;
	    }
	    strcat(buffer[i], string);
	}
    }
    sprintf(key, "{%s}-{%s}\\n", buffer[0], buffer[1]);
""","""    char correct[MAX_DISPLAY + 4], generated[MAX_DISPLAY + 4];
    show(correct, &text[0], &sync->substr[0]);
    show(generated, &text[1], &sync->substr[1]);
    sprintf(key, "{%s}-{%s}\\n", correct, generated);
"""),("""void make_key(""","""static void show(buffer, t, s)
char *buffer;
Text *t;
Substr *s;
{
    long j;
    char string[STRING_SIZE];
    strcpy(buffer, "");
    for (j = s->start; j <= s->stop; j++)
    {
	char_to_string(False, t->array[j]->value, string, True);
	if (strlen(buffer) + strlen(string) > MAX_DISPLAY)
	{
	    strcat(buffer, "...");
	    return;
	}
	strcat(buffer, string);
    }
}

void make_key(""")])
