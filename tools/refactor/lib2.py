import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('list.c', ('''    item->prev = ref1;
    item->next = ref2;
    if (ref1)
	ref1->next = item;
    else
	list->first = item;
    if (ref2)
	ref2->prev = item;
    else
	list->last = item;
    free_array(list);
    list->count++;
''', '''    Item **from_left = ref1 ? &ref1->next : &list->first;
    Item **from_right = ref2 ? &ref2->prev : &list->last;
    list->count++;
    item->next = ref2;
    item->prev = ref1;
    *from_right = item;
    *from_left = item;
    free_array(list);
'''), ('''    if (item->prev)
	item->prev->next = item->next;
    else
	list->first = item->next;
    if (item->next)
	item->next->prev = item->prev;
    else
	list->last = item->prev;
    item->prev = item->next = NULL;
    free_array(list);
    list->count--;
''', '''    Item *before = item->prev, *after = item->next;
    item->next = NULL;
    item->prev = NULL;
    if (!before)
	list->first = after;
    else
	before->next = after;
    if (after == NULL)
	list->last = before;
    else
	after->prev = before;
    --list->count;
    free_array(list);
'''), ('''    Item *item;
    long i = 0;
    if (list->array || list->count == 0)
	return;
    list->array = NEW_ARRAY(list->count, Item *);
    for (item = list->first; item; item = item->next)
	list->array[i++] = item;
''', '''    Item *item, **slot;
    if (list->count != 0 && !list->array)
    {
	slot = list->array = NEW_ARRAY(list->count, Item *);
	item = list->first;
	while (item)
	{
	    *slot = item;
	    slot++;
	    item = item->next;
	}
    }
'''), ('''    Item *item;
    while (list->first)
    {
	item = list->first;
	list_remove(list, item);
	(*process_item)(item);
    }
''', '''    Item *item;
    for (;;)
    {
	item = list->first;
	if (item == NULL)
	    break;
	list_remove(list, item);
	process_item(item);
    }
'''))
ed('table.c', ('''    short i;
    for (i = 0; i < TABLE_SIZE; i++)
	list_initialize(&table->list[i]);
    table->array = NULL;
    table->count = 0;
''', '''    Entrylist *list = table->list;
    table->count = 0;
    table->array = NULL;
    while (list < table->list + TABLE_SIZE)
	list_initialize(list++);
'''), ('''    const unsigned char *key = (const unsigned char*) key_string;
    long i, sum = 0;

    for (i = 0; key[i]; i++)
	sum += key[i];
    return(sum % TABLE_SIZE);
''', '''    const unsigned char *key;
    long sum = 0;

    for (key = (const unsigned char*) key_string; *key != '\\0'; key++)
	sum = sum + *key;
    return (short) (sum % TABLE_SIZE);
'''), ('''    for (entry = table->list[table_index(key)].first; entry &&
    strcmp(key, entry->key) != 0; entry = entry->next);
    return(entry);
''', '''    short i = table_index(key);
    for (entry = table->list[i].first; entry; entry = entry->next)
	if (!strcmp(entry->key, key))
	    return(entry);
    return(NULL);
'''), ('''    Entry *entry;
    long i, j = 0;
    if (table->array || table->count == 0)
	return;
    table->array = NEW_ARRAY(table->count, Entry *);
    for (i = 0; i < TABLE_SIZE; i++)
	for (entry = table->list[i].first; entry; entry = entry->next)
	    table->array[j++] = entry;
''', '''    Entry *entry, **slot;
    int i;
    if (table->array)
	return;
    if (!table->count)
	return;
    slot = NEW_ARRAY(table->count, Entry *);
    table->array = slot;
    for (i = 0; i < TABLE_SIZE; i++)
    {
	entry = table->list[i].first;
	while (entry != NULL)
	{
	    *slot++ = entry;
	    entry = entry->next;
	}
    }
'''), ('''    short i;
    for (i = 0; i < TABLE_SIZE; i++)
	list_empty(&table->list[i], process_entry);
    free_array(table);
    table->count = 0;
''', '''    short i = TABLE_SIZE;
    free_array(table);
    table->count = 0;
    while (i > 0)
    {
	i--;
	list_empty(&table->list[i], process_entry);
    }
'''))
ed('charclass.c', ('''    long i, j, k;
    for (i = 0; i < sizeof(range) / sizeof(struct range); i++)
    {
	for (j = 0; j < num_classes &&
	strcmp(range[i].name, class_name[j]) != 0; j++);
	if (j == num_classes)
	{
	    if (num_classes == MAX_CHARCLASSES)
		error("too many character classes");
	    num_classes++;
	    class_name[j] = range[i].name;
	}
	for (k = range[i].start; k <= range[i].stop; k++)
	    class[k] = j;
    }
''', '''    size_t i;
    long k;
    for (i = 0; i < sizeof(range) / sizeof(range[0]); i++)
    {
	const struct range *r = &range[i];
	Charclass number = number_of(r->name);
	for (k = r->start; k < r->stop + 1L; k++)
	    class[k] = number;
    }
'''), ('''static void initialize_charclass()
''', '''static Charclass number_of(name)
char *name;
{
    short j = 0;
    while (j < num_classes)
    {
	if (strcmp(class_name[j], name) == 0)
	    return(j);
	j++;
    }
    if (num_classes >= MAX_CHARCLASSES)
	error("too many character classes");
    class_name[num_classes] = name;
    return(num_classes++);
}

static void initialize_charclass()
'''), ('''    if (num_classes == 0)
	initialize_charclass();
    return(class[value]);
''', '''    if (!num_classes)
	initialize_charclass();
    return(*(class + value));
'''))
ed('util.c', ('''    long i;
    for (i = 0; s1[i] && s1[i] == s2[i]; i++);
    if (s1[i] || s2[i])
	return(s1[i] < s2[i] ? -1 : 1);
    else
	return(0);
''', '''    while (*s1 == *s2)
    {
	if (!*s1)
	    return(0);
	s1++;
	s2++;
    }
    if (*s1 > *s2)
	return(1);
    return(-1);
'''), ('''    long i;
    for (i = (long) strlen(pathname) - 1; i >= 0 && pathname[i] != delimiter; i--);
    return(&pathname[i + 1]);
''', '''    long i = strlen(pathname);
    while (i > 0 && pathname[i - 1] != delimiter)
	i--;
    return(pathname + i);
'''), ('''    return(strcpy(NEW_ARRAY(strlen(string) + 1, char), string));
''', '''    size_t length = strlen(string);
    char *copy = NEW_ARRAY(length + 1, char);
    memcpy(copy, string, length + 1);
    return(copy);
'''), ('''    if (!filename)
	return(mode[0] == 'r' ? stdin : stdout);
    f = fopen(filename, mode);
    if (f)
	return(f);
    if (mode[0] == 'w')
	error_string("unable to create file", filename);
    else
	error_string("unable to open file", filename);
''', '''    if (filename == NULL)
    {
	if (*mode == 'r')
	    return(stdin);
	return(stdout);
    }
    if ((f = fopen(filename, mode)) == NULL)
	error_string((*mode == 'w' ? "unable to create file" : "unable to open file"), filename);
    return(f);
'''), ('''    if (ferror(f) || (f == stdout && fflush(f) != 0) ||
    (f != stdin && f != stdout && fclose(f) != 0))
	error("unable to read or write file");
''', '''    int bad = ferror(f);
    if (!bad)
    {
	if (f == stdout)
	    bad = fflush(f);
	else if (f != stdin)
	    bad = fclose(f);
    }
    if (bad)
	error("unable to read or write file");
'''), ('''    short i;
    char *name;
    for (i = 1; i <= tempfile_id; i++)
    {
	name = create_tempfilename(i);
	unlink(name);
	free(name);
    }
''', '''    short i = 0;
    while (i < tempfile_id)
    {
	char *name = create_tempfilename(++i);
	unlink(name);
	free(name);
    }
'''), ('''    return(stat(filename, &buffer) == 0 ? True : False);
''', '''    if (stat(filename, &buffer))
	return(False);
    return(True);
'''), ('''    if (fflush(stdout) != 0 || ferror(stdout))
	error("unable to write output");
    quit(0);
''', '''    int failed = fflush(stdout);
    if (!failed)
	failed = ferror(stdout);
    if (failed)
	error("unable to write output");
    quit(0);
'''))
