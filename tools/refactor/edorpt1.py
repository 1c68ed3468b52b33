import sys
def sub(p, pairs):
    p=sys.argv[1]+'/src/'+p
    s=open(p).read()
    for a,b in pairs:
        if s.count(a)<1: print('NOT FOUND', a); continue
        s=s.replace(a,b)
    open(p,'w').write(s)
sub('edorpt.c',[("""static Boolean read_value(f, value, sum_value)
FILE *f;
long *value, *sum_value;
{
    if (read_line(f) && sscanf(line, "%ld", value) == 1)
    {
	*sum_value += *value;
	return(True);
    }
    else
	return(False);
}
""","""static Boolean read_value(f, value, sum_value)
FILE *f;
long *value, *sum_value;
{
    if (!read_line(f))
	return(False);
    if (sscanf(line, "%ld", value) < 1)
	return(False);
    *sum_value = *value + *sum_value;
    return(True);
}

static Boolean is_report(f)
FILE *f;
{
    if (!read_line(f) || strncmp(TITLE, line, sizeof(TITLE) - 3) != 0)
	return(False);
    if (!read_line(f))
	return(False);
    return(strcmp(DIVIDER, line) == 0 ? True : False);
}
"""),("""    if (read_line(f) && strncmp(line, TITLE, sizeof(TITLE) - 3) == 0 &&
    read_line(f) && strcmp(line, DIVIDER) == 0 &&
    read_value(f, &value1, &edodata->total_insertions) &&
    read_value(f, &value1, &edodata->total_deletions) &&
    read_value(f, &moves, &edodata->total_moves))
    {
	if (moves > 0 && read_line(f) && read_line(f) && read_line(f))
	    while (read_two(f, &value1, &value2))
	    {
		if (value2 < 1 || value2 > MAX_MOVE_LENGTH)
		    error_string("invalid move length in",
		    (filename ? filename : "stdin"));
		edodata->moves[value2] += value1;
	    }
    }
    else
	error_string("invalid format in", (filename ? filename : "stdin"));
""","""    if (!(is_report(f) &&
    read_value(f, &value1, &edodata->total_insertions) &&
    read_value(f, &value1, &edodata->total_deletions) &&
    read_value(f, &moves, &edodata->total_moves)))
	error_string("invalid format in", (filename ? filename : "stdin"));
    if (moves > 0)
    {
	int skip;
	for (skip = 0; skip < 3; skip++)
	    if (!read_line(f))
		break;
	for (;;)
	{
	    if (!read_two(f, &value1, &value2))
		break;
	    if (value2 >= 1 && value2 <= MAX_MOVE_LENGTH)
		edodata->moves[value2] += value1;
	    else
		error_string("invalid move length in",
		(filename ? filename : "stdin"));
	}
    }
"""),("""	fprintf(f, "\\nMoves\\n   Count   Length\\n");
	for (i = 1; i <= MAX_MOVE_LENGTH; i++)
	    if (edodata->moves[i] > 0)
		write_move(f, edodata->moves[i], i);
""","""	fputc('\\n', f);
	fputs("Moves\\n", f);
	fputs("   Count   Length\\n", f);
	for (i = 1; i < MAX_MOVE_LENGTH + 1; ++i)
	{
	    long n = edodata->moves[i];
	    if (n < 1)
		continue;
	    write_move(f, n, i);
	}
""")])
sub('editopcost.c',[("""    long insertions, moves, i;
    insertions = edodata.total_insertions;
    moves = edodata.total_moves;
    for (i = 0; i <= MAX_MOVE_LENGTH; i++)
    {
	printf("%3ld %10ld\\n", i, insertions + i * moves);
	insertions += i * edodata.moves[i];
	moves -= edodata.moves[i];
    }
""","""    long shorter = 0, longer = edodata.total_moves, i = 0;
    while (i <= MAX_MOVE_LENGTH)
    {
	long n = edodata.moves[i];
	shorter += n * i;
	longer -= n;
	printf("%3ld %10ld\\n", i, edodata.total_insertions + shorter + longer * i);
	i++;
    }
""")])
