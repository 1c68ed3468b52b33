import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('editopcost.c', ('''    short i;
    edodata.total_insertions -= edodata2.total_insertions;
    edodata.total_deletions  -= edodata2.total_deletions;
    edodata.total_moves      -= edodata2.total_moves;
    for (i = 1; i <= MAX_MOVE_LENGTH; i++)
	edodata.moves[i] -= edodata2.moves[i];
''', '''    long *p, *q;
    p = &edodata.moves[1];
    q = &edodata2.moves[1];
    while (p <= &edodata.moves[MAX_MOVE_LENGTH])
	*p++ -= *q++;
    edodata.total_moves      -= edodata2.total_moves;
    edodata.total_deletions  -= edodata2.total_deletions;
    edodata.total_insertions -= edodata2.total_insertions;
'''), ('''	printf("%3ld %10ld\\n", i, insertions + i * moves);
	insertions += i * edodata.moves[i];
	moves -= edodata.moves[i];
''', '''	long n = edodata.moves[i], cost;
	cost = moves * i;
	cost += insertions;
	printf("%3ld %10ld\\n", i, cost);
	moves -= n;
	insertions += n * i;
'''))
ed('edorpt.c', ('''    if (read_line(f) && sscanf(line, "%ld", value) == 1)
    {
	*sum_value += *value;
	return(True);
    }
    else
	return(False);
''', '''    if (!read_line(f) || sscanf(line, "%ld", value) != 1)
	return(False);
    *sum_value += *value;
    return(True);
'''), ('''    if (read_line(f) && strncmp(line, TITLE, sizeof(TITLE) - 3) == 0 &&
    read_line(f) && strcmp(line, DIVIDER) == 0 &&
    read_value(f, &value1, &edodata->total_insertions) &&
    read_value(f, &value1, &edodata->total_deletions) &&
    read_value(f, &moves, &edodata->total_moves))
    {
	if (moves > 0 && read_line(f) && read_line(f) && read_line(f))
	    while (read_two(f, &value1, &value2))
	    {
		if (value2 < 1 || value2 > MAX_MOVE_LENGTH)
		    error_string("invalid move length in",
		    (filename ? filename : "stdin"));
		edodata->moves[value2] += value1;
	    }
    }
    else
	error_string("invalid format in", (filename ? filename : "stdin"));
    close_file(f);
''', '''    if (!read_line(f) || strncmp(line, TITLE, sizeof(TITLE) - 3) != 0 ||
    !read_line(f) || strcmp(line, DIVIDER) != 0 ||
    !read_value(f, &value1, &edodata->total_insertions) ||
    !read_value(f, &value1, &edodata->total_deletions) ||
    !read_value(f, &moves, &edodata->total_moves))
	error_string("invalid format in", (filename ? filename : "stdin"));
    if (moves > 0)
	read_moves(f, edodata, (filename ? filename : "stdin"));
    close_file(f);
'''), ('''void read_edorpt(edodata, filename)
''', '''static void read_moves(f, edodata, name)
FILE *f;
Edodata *edodata;
char *name;
{
    long count, length;
    int i;
    for (i = 0; i < 3; i++)
	if (!read_line(f))
	    return;
    while (read_two(f, &count, &length))
    {
	if (length < 1 || length > MAX_MOVE_LENGTH)
	    error_string("invalid move length in", name);
	edodata->moves[length] += count;
    }
}

void read_edorpt(edodata, filename)
'''), ('''    long i;
    f = open_file(filename, "w");
    fprintf(f, "%s%s", TITLE, DIVIDER);
''', '''    long i, *p = edodata->moves;
    f = open_file(filename, "w");
    fputs(TITLE DIVIDER, f);
'''), ('''	for (i = 1; i <= MAX_MOVE_LENGTH; i++)
	    if (edodata->moves[i] > 0)
		write_move(f, edodata->moves[i], i);
''', '''	i = 0;
	while (i < MAX_MOVE_LENGTH)
	    if (p[++i] > 0)
		write_move(f, p[i], i);
'''))
ed('editopsum.c', ('''    int i;
    initialize''', '''    char **end;
    initialize'''), ('''    for (i = 0; i < argc; i++)
	read_edorpt(&edodata, argv[i]);
''', '''    for (end = argv + argc; argv < end; argv++)
	read_edorpt(&edodata, *argv);
'''))
