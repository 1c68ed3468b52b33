import sys
R = sys.argv[1] + "/src/"
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, "w").write(s)

ed('list.c', ('''static void list_insert(list, ref1, item, ref2)
List *list;
Item *ref1, *item, *ref2;
{
    item->prev = ref1;
    item->next = ref2;
    if (ref1)
	ref1->next = item;
    else
	list->first = item;
    if (ref2)
	ref2->prev = item;
    else
	list->last = item;
    free_array(list);
    list->count++;
}
''', '''/* make two neighbours known to each other; NULL stands for an end of the list */
static void join(list, before, after)
List *list;
Item *before, *after;
{
    if (before != NULL)
	before->next = after;
    else
	list->first = after;
    if (after != NULL)
	after->prev = before;
    else
	list->last = before;
}
/**********************************************************************/

static void list_insert(list, ref1, item, ref2)
List *list;
Item *ref1, *item, *ref2;
{
    list->count++;
    free_array(list);
    join(list, ref1, item);
    item->prev = ref1;
    join(list, item, ref2);
    item->next = ref2;
}
'''), ('''    if (item->prev)
	item->prev->next = item->next;
    else
	list->first = item->next;
    if (item->next)
	item->next->prev = item->prev;
    else
	list->last = item->prev;
    item->prev = item->next = NULL;
    free_array(list);
    list->count--;
''', '''    join(list, item->prev, item->next);
    item->next = NULL;
    item->prev = NULL;
    list->count -= 1;
    free_array(list);
'''), ('''    Item *item;
    long i = 0;
    if (list->array || list->count == 0)
	return;
    list->array = NEW_ARRAY(list->count, Item *);
    for (item = list->first; item; item = item->next)
	list->array[i++] = item;
''', '''    Item *item, **slot;
    if (list->count == 0 || list->array != NULL)
	return;
    list->array = NEW_ARRAY(list->count, Item *);
    slot = list->array;
    item = list->first;
    while (item != NULL)
    {
	*slot++ = item;
	item = item->next;
    }
'''), ('''    while (list->first)
    {
	item = list->first;
	list_remove(list, item);
	(*process_item)(item);
    }
''', '''    for (item = list->first; item != NULL; item = list->first)
    {
	list_remove(list, item);
	process_item(item);
    }
'''))
ed('table.c', ('''    const unsigned char *key = (const unsigned char*) key_string;
    long i, sum = 0;

    for (i = 0; key[i]; i++)
	sum += key[i];
    return(sum % TABLE_SIZE);
''', '''    const unsigned char *key;
    long sum = 0;

    for (key = (const unsigned char*) key_string; *key != 0; key++)
	sum = sum + *key;
    return((short) (sum % TABLE_SIZE));
'''), ('''    Entry *entry;
    for (entry = table->list[table_index(key)].first; entry &&
    strcmp(key, entry->key) != 0; entry = entry->next);
    return(entry);
''', '''    Entrylist *bucket = &table->list[table_index(key)];
    Entry *entry = bucket->first;
    while (entry != NULL)
    {
	if (!strcmp(entry->key, key))
	    return(entry);
	entry = entry->next;
    }
    return(NULL);
'''), ('''    for (i = 0; i < TABLE_SIZE; i++)
	for (entry = table->list[i].first; entry; entry = entry->next)
	    table->array[j++] = entry;
''', '''    for (i = 0; i < TABLE_SIZE; i++)
    {
	entry = table->list[i].first;
	while (entry)
	{
	    table->array[j] = entry;
	    j++;
	    entry = entry->next;
	}
    }
'''))
ed('charclass.c', ('''	for (j = 0; j < num_classes &&
	strcmp(range[i].name, class_name[j]) != 0; j++);
	if (j == num_classes)
	{
	    if (num_classes == MAX_CHARCLASSES)
		error("too many character classes");
	    num_classes++;
	    class_name[j] = range[i].name;
	}
	for (k = range[i].start; k <= range[i].stop; k++)
	    class[k] = j;
''', '''	j = find_class(range[i].name);
	for (k = range[i].start; k <= range[i].stop; k++)
	    class[k] = j;
'''), ('''static void initialize_charclass()
''', '''static long find_class(name)
char *name;
{
    long j;
    for (j = 0; j < num_classes; j++)
	if (strcmp(name, class_name[j]) == 0)
	    return(j);
    if (num_classes == MAX_CHARCLASSES)
	error("too many character classes");
    class_name[num_classes] = name;
    return(num_classes++);
}
/**********************************************************************/

static void initialize_charclass()
'''))
