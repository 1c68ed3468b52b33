import sys
def sub(p, pairs):
    p=sys.argv[1]+'/src/'+p
    s=open(p).read()
    for a,b in pairs:
        if s.count(a)<1: print('NOT FOUND', a); continue
        s=s.replace(a,b)
    open(p,'w').write(s)

sub('text.c',[("""	Boolean found_non_blank = False;
	Char *c, *next;

	/* Normalize all blank-y charcaters to BLANK. */
	for (c = start; c; c = c->next)
		if (is_blank(c->value))
			c->value = BLANK;

	c = start;
	while (c)
	{
		next = c->next;
		if ((c->value == BLANK && (!found_non_blank || !next ||
						next->value == BLANK || next->value == NEWLINE)) ||
				(c->value == NEWLINE && !found_non_blank))
		{
			if (found_non_blank && next && next->value == BLANK)
				next->suspect |= c->suspect;
			list_remove(text, c);
			free(c);
		} else {
			found_non_blank = (c->value == NEWLINE ? False : True);
		}

		c = next;
	}
""","""	Boolean line_is_empty = True;
	Char *c, *next;

	unify_blanks(start);
	for (c = start; c != NULL; c = next)
	{
		next = c->next;
		if (is_superfluous(c, next, line_is_empty))
		{
			if (!line_is_empty && next && next->value == BLANK && c->suspect)
				next->suspect = True;
			list_remove(text, c);
			free(c);
			continue;
		}
		line_is_empty = c->value == NEWLINE;
	}
"""),("""static void compress_spacing(text, start)""","""static void unify_blanks(start)
	Char *start;
{
	Char *c = start;
	while (c)
	{
		if (is_blank(c->value))
			c->value = BLANK;
		c = c->next;
	}
}

static Boolean is_superfluous(c, next, line_is_empty)
	Char *c, *next;
	Boolean line_is_empty;
{
	if (c->value == NEWLINE)
		return line_is_empty;
	if (c->value != BLANK)
		return False;
	if (line_is_empty || !next)
		return True;
	return next->value == BLANK || next->value == NEWLINE ? True : False;
}

static void compress_spacing(text, start)"""),
("""	if (textopt->normalize)
		compress_spacing(text, (last ? last->next : text->first));
	if (textopt->case_insensitive)
		lowercase(last ? last->next : text->first);""","""	if (textopt->case_insensitive)
		lowercase(first_read(text, last));
	if (textopt->normalize)
		compress_spacing(text, first_read(text, last));"""),
("""void read_text(text, filename, textopt)""","""static Char *first_read(text, last)
	Text *text;
	Char *last;
{
	if (last)
		return last->next;
	return text->first;
}

void read_text(text, filename, textopt)"""),
("""	byte = getc(f);

	while (byte != EOF)
	{
		code_unit_size""","""	for (byte = getc(f); byte != EOF; byte = getc(f))
	{
		code_unit_size"""),
("""			suspect = False;
		}
		byte = getc(f);
	}""","""			suspect = False;
		}
	}"""),
("""		if (find_markers && code_point == suspect_marker) {
			suspect = True;
		} else {
			append_char(text, suspect, code_point);
			suspect = False;
		}
""","""		if (!find_markers || code_point != suspect_marker) {
			append_char(text, suspect, code_point);
			suspect = False;
			continue;
		}
		suspect = True;
"""),
("""		code_unit_size = utf8proc_utf8class[byte];
		if (code_unit_size < 1) {
			/* Encoding error! Stream is not UTF-8! */
			error("invalid UTF-8 character");
		}

		buffer[0] = byte;
		/* Read the remaining bytes into the buffer. */
		if (code_unit_size > 1) {
			read_status = fread(
					buffer + 1,
					sizeof(utf8proc_uint8_t),
					/* The first byte is already in the buffer. */
					code_unit_size - 1,
					f
					);

			if (read_status != (code_unit_size - 1)) {
				/* Could not read enough bytes. */
				error("unexpected end of input");
			}
		}

		/* Decode a single code unit -> code point. */
		decode_status = utf8proc_iterate(buffer, sizeof(buffer), &code_point);
		if (decode_status != code_unit_size) {
			error(utf8proc_errmsg(decode_status));
		}
""","""		code_point = finish_char(f, byte);
"""),
("""static void read_contents(f, text""","""static utf8proc_int32_t finish_char(f, byte)
	FILE *f;
	int byte;
{
	utf8proc_uint8_t buffer[4];
	utf8proc_int32_t code_point;
	utf8proc_ssize_t used;
	size_t n;
	n = utf8proc_utf8class[byte];
	if (n == 0)
		error("invalid UTF-8 character");
	buffer[0] = byte;
	if (n > 1 && fread(&buffer[1], n - 1, 1, f) != 1)
		error("unexpected end of input");
	used = utf8proc_iterate(buffer, n, &code_point);
	if (used < 0)
		error(utf8proc_errmsg(used));
	return code_point;
}

static void read_contents(f, text"""),
("""	int byte, read_status, decode_status;
	size_t code_unit_size;
""","	int byte;\n"),
])
