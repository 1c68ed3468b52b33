import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('accrpt.c', ('''    if (read_line(f) && strncmp(line, TITLE, sizeof(TITLE) - 3) == 0 &&
    read_line(f) && strcmp(line, DIVIDER) == 0 &&
    read_value(f, &characters, &accdata->characters) &&
    read_value(f, &errors, &accdata->errors) &&
    read_line(f) && read_line(f) &&
    read_value(f, &value1, &accdata->reject_characters) &&
    read_value(f, &value1, &accdata->suspect_markers) &&
    read_value(f, &value1, &accdata->false_marks) &&
    read_line(f) && read_line(f) && read_line(f) && read_line(f) &&
    read_ops(f, &accdata->marked_ops) &&
    read_ops(f, &accdata->unmarked_ops) &&
    read_ops(f, &accdata->total_ops) && read_line(f))
    {
        while''', '''    if (read_header(f) &&
    read_value(f, &characters, &accdata->characters) &&
    read_value(f, &errors, &accdata->errors) &&
    skip_lines(f, 2) &&
    read_marks(f, accdata) &&
    skip_lines(f, 4) &&
    read_ops(f, &accdata->marked_ops) &&
    read_ops(f, &accdata->unmarked_ops) &&
    read_ops(f, &accdata->total_ops) && read_line(f))
    {
        while'''), ('''void read_accrpt(accdata, filename)
''', '''static Boolean read_header(f)
FILE *f;
{
    if (!read_line(f) || strncmp(line, TITLE, sizeof(TITLE) - 3))
        return(False);
    if (!read_line(f))
        return(False);
    return(strcmp(line, DIVIDER) ? False : True);
}

static Boolean skip_lines(f, n)
FILE *f;
int n;
{
    while (n-- > 0)
        if (!read_line(f))
            return(False);
    return(True);
}

static Boolean read_marks(f, accdata)
FILE *f;
Accdata *accdata;
{
    long value;
    long *sums[3];
    int i;
    sums[0] = &accdata->reject_characters;
    sums[1] = &accdata->suspect_markers;
    sums[2] = &accdata->false_marks;
    for (i = 0; i < 3; i++)
        if (!read_value(f, &value, sums[i]))
            return(False);
    return(True);
}

void read_accrpt(accdata, filename)
'''), ('''    if (read_line(f) && sscanf(line, "%ld", value) == 1)
    {
        *sum_value += *value;
        return(True);
    }
    else
        return(False);
''', '''    if (!read_line(f))
        return(False);
    if (sscanf(line, "%ld", value) < 1)
        return(False);
    *sum_value = *sum_value + *value;
    return(True);
'''), ('''    if (conf)
    {
        conf->errors += errors;
        conf->marked += marked;
    }
    else
    {
        conf = NEW(Conf);
        conf->key = copy_string(key);
        conf->errors = errors;
        conf->marked = marked;
        table_insert(&accdata->conftable, conf);
    }
''', '''    if (!conf)
    {
        conf = NEW(Conf);
        conf->key = copy_string(key);
        table_insert(&accdata->conftable, conf);
    }
    conf->errors += errors;
    conf->marked += marked;
'''), ('''    update_class(&accdata->large_class[charclass(value)], count, missed);
    update_class(&accdata->total_class, count, missed);
    update_class(&accdata->small_class[value], count, missed);
''', '''    Accclass *all[3];
    short i;
    all[0] = &accdata->large_class[charclass(value)];
    all[1] = &accdata->total_class;
    all[2] = &accdata->small_class[value];
    for (i = 0; i < 3; i++)
        update_class(all[i], count, missed);
'''), ('''    if (conf1->errors != conf2->errors)
        return(conf1->errors > conf2->errors ? -1 : 1);
    if (conf1->marked != conf2->marked)
        return(conf1->marked > conf2->marked ? -1 : 1);
    return(ustrcmp(conf1->key, conf2->key));
''', '''    int order = descending(conf1->errors, conf2->errors);
    if (order == 0)
        order = descending(conf1->marked, conf2->marked);
    return(order ? order : ustrcmp(conf1->key, conf2->key));
'''), ('''static int compare_conf(''', '''static int descending(a, b)
long a, b;
{
    return((a < b) - (a > b));
}

static int compare_conf('''))
