import sys
p=sys.argv[1]+'/src/table.c'
s=open(p).read()
s=s.replace("""static short table_index(key_string)
const char *key_string;
{
    const unsigned char *key = (const unsigned char*) key_string;
    long i, sum = 0;

    for (i = 0; key[i]; i++)
	sum += key[i];
    return(sum % TABLE_SIZE);
}""","""static long byte_sum(text)
const char *text;
{
    const unsigned char *p;
    long total = 0;
    for (p = (const unsigned char*) text; *p != '\\0'; p++)
	total = total + *p;
    return total;
}

static short table_index(key_string)
const char *key_string;
{
    long sum;
    sum = byte_sum(key_string);
    return(sum % TABLE_SIZE);
}

static Entrylist *bucket(table, key)
Table *table;
char *key;
{
    return &table->list[table_index(key)];
}
""")
s=s.replace("""    for (entry = table->list[table_index(key)].first; entry &&
    strcmp(key, entry->key) != 0; entry = entry->next);
    return(entry);""","""    Entrylist *list = bucket(table, key);
    entry = list->first;
    while (entry != NULL)
    {
        if (strcmp(key, entry->key) == 0)
            return(entry);
        entry = entry->next;
    }
    return(NULL);""")
s=s.replace("&table->list[table_index(entry->key)], entry","bucket(table, entry->key), entry")
s=s.replace("    free_array(table);\n    table->count++;","    table->count += 1;\n    free_array(table);")
s=s.replace("""	for (entry = table->list[i].first; entry; entry = entry->next)
	    table->array[j++] = entry;""","""	for (entry = table->list[i].first; entry; entry = entry->next, j++)
	    *(table->array + j) = entry;""")
open(p,'w').write(s)
p=sys.argv[1]+'/src/list.c'
s=open(p).read()
s=s.replace("""    Item *item;
    long i = 0;
    if (list->array || list->count == 0)
	return;
    list->array = NEW_ARRAY(list->count, Item *);
    for (item = list->first; item; item = item->next)
	list->array[i++] = item;""","""    Item *item, **place;
    if (list->array)
        return;
    if (list->count == 0)
	return;
    place = list->array = NEW_ARRAY(list->count, Item *);
    item = list->first;
    while (item != NULL)
    {
	*place = item;
        place++;
        item = item->next;
    }""")
s=s.replace("""    Item *item;
    while (list->first)
    {
	item = list->first;
	list_remove(list, item);
	(*process_item)(item);
    }""","""    Item *item;
    for (item = list->first; item; item = list->first)
    {
	list_remove(list, item);
	process_item(item);
    }""")
s=s.replace("""    free_array(list);
    list->count--;""","""    list->count--;
    free_array(list);""")
open(p,'w').write(s)
