import sys
def sub(p, pairs):
    p=sys.argv[1]+'/src/'+p
    s=open(p).read()
    for a,b in pairs:
        if s.count(a)<1: print('NOT FOUND', a); continue
        s=s.replace(a,b)
    open(p,'w').write(s)
sub('accuracy.c',[("""	characters = wildcards = 0;
	for (i = sync->substr[0].start; i <= sync->substr[0].stop; i++)
	    if (text[0].array[i]->value == REJECT_CHARACTER)
		wildcards++;
	    else
	    {
		characters++;
		add_class(&accdata, text[0].array[i]->value, 1,
		(sync->match ? 0 : 1));
	    }
	accdata.characters += characters;
	reject_characters = suspect_markers = 0;
	for (i = sync->substr[1].start; i <= sync->substr[1].stop; i++)
	    if (text[1].array[i]->value == REJECT_CHARACTER)
		reject_characters++;
	    else if (text[1].array[i]->suspect)
		suspect_markers++;
""","""	count_correct(sync, &characters, &wildcards);
	reject_characters = suspect_markers = 0;
	i = sync->substr[1].start;
	while (i <= sync->substr[1].stop)
	{
	    Char *c = text[1].array[i++];
	    if (c->value != REJECT_CHARACTER)
	    {
		if (c->suspect)
		    ++suspect_markers;
		continue;
	    }
	    ++reject_characters;
	}
"""),("""void process_synclist(synclist)""","""static void count_correct(sync, characters, wildcards)
Sync *sync;
long *characters, *wildcards;
{
    long i, missed = sync->match == NULL;
    Substr *s = &sync->substr[0];
    *characters = 0;
    *wildcards = 0;
    for (i = s->start; i < s->stop + 1; ++i)
    {
	Charvalue v = text[0].array[i]->value;
	if (v != REJECT_CHARACTER)
	{
	    add_class(&accdata, v, 1, missed);
	    ++*characters;
	}
	else
	    ++*wildcards;
    }
    accdata.characters += *characters;
}

static void account(sync, key, ops, marked)
Sync *sync;
char *key;
Accops *ops;
Boolean marked;
{
    make_key(key, sync);
    add_ops(marked ? &accdata.marked_ops : &accdata.unmarked_ops, ops);
    add_conf(&accdata, key, ops->errors, marked ? ops->errors : 0);
    add_ops(&accdata.total_ops, ops);
}

void process_synclist(synclist)"""),
("""		make_key(key, sync);
		if (reject_characters + suspect_markers > 0)
		{
		    add_ops(&accdata.marked_ops, &ops);
		    add_conf(&accdata, key, ops.errors, ops.errors);
		}
		else
		{
		    add_ops(&accdata.unmarked_ops, &ops);
		    add_conf(&accdata, key, ops.errors, 0);
		}
		add_ops(&accdata.total_ops, &ops);
""","""		account(sync, key, &ops, reject_characters > 0 || suspect_markers > 0);
"""),
("""	    genchars = max(0, sync->substr[1].length - wildcards);
	    ops.errors = max(characters, genchars);
	    if (ops.errors > 0)
	    {""","""	    if (wildcards < sync->substr[1].length)
		genchars = sync->substr[1].length - wildcards;
	    else
		genchars = 0;
	    ops.errors = characters > genchars ? characters : genchars;
	    if (ops.errors != 0)
	    {"""),
])
sub('accrpt.c',[("""    if (conf)
    {
        conf->errors += errors;
        conf->marked += marked;
    }
    else
    {
        conf = NEW(Conf);
        conf->key = copy_string(key);
        conf->errors = errors;
        conf->marked = marked;
        table_insert(&accdata->conftable, conf);
    }""","""    if (!conf)
    {
        conf = NEW(Conf);
        conf->key = copy_string(key);
        conf->errors = conf->marked = 0;
        table_insert(&accdata->conftable, conf);
    }
    conf->errors += errors;
    conf->marked += marked;"""),("""    update_class(&accdata->large_class[charclass(value)], count, missed);
    update_class(&accdata->total_class, count, missed);
""","""    Accclass *all = &accdata->total_class;
    all->count += count;
    all->missed += missed;
    update_class(accdata->large_class + charclass(value), count, missed);
""")])
