import sys
def sub(p, pairs):
    p=sys.argv[1]+'/src/'+p
    s=open(p).read()
    for a,b in pairs:
        if s.count(a)<1: print('NOT FOUND', a); continue
        s=s.replace(a,b)
    open(p,'w').write(s)

sub('util.c',[("""    int i, j = 0;
    if (*argc == 1 && usage_when_no_args)
	show_usage(usage);
    for (i = 1; i < *argc; i++)
	if (argv[i][0] == '-' && argv[i][1])
	{
	    if (strncmp("-help", argv[i], strlen(argv[i])) == 0)
		show_usage(usage);
	    if (split_option(argv[i], (i + 1 < *argc ? argv[i + 1] : NULL),
	    option))
		i++;
	}
	else
	    argv[j++] = argv[i];
    *argc = j;""","""    int i = 0, kept = 0, total = *argc;
    if (total == 1 && usage_when_no_args)
	show_usage(usage);
    while (++i < total)
    {
	char *arg = argv[i], *next_arg = NULL;
	if (!is_option(arg))
	{
	    argv[kept] = arg;
	    kept++;
	    continue;
	}
	if (is_help(arg))
	    show_usage(usage);
	if (i < total - 1)
	    next_arg = argv[i + 1];
	i += split_option(arg, next_arg, option);
    }
    *argc = kept;"""),
("""static void parse_args(argc""","""static Boolean is_option(arg)
char *arg;
{
    return arg[0] == '-' && arg[1] != '\\0' ? True : False;
}

static int is_help(arg)
char *arg;
{
    size_t n = strlen(arg);
    return !strncmp(arg, "-help", n);
}

static void parse_args(argc"""),
("""    short i;
    if (!option)
	goto invalid_option;
    for (i = 0; option[i].name && arg[1] != option[i].name; i++);
    if (!option[i].name)
	goto invalid_option;
    if (option[i].string && (arg[2] || next_arg))
    {
	if (*option[i].string)
	    goto duplicate_option;
	*option[i].string = (arg[2] ? &arg[2] : next_arg);
	return(arg[2] ? False : True);
    }
    if (option[i].boolean && !arg[2])
    {
	if (*option[i].boolean)
	    goto duplicate_option;
	*option[i].boolean = True;
	return(False);
    }
invalid_option:
    error_string("invalid option", arg);
duplicate_option:
    error_string("duplicate option", arg);""","""    Option *o = find_option(option, arg[1]);
    if (!o)
	error_string("invalid option", arg);
    if (o->string && (arg[2] || next_arg))
    {
	Boolean attached = arg[2] != '\\0';
	if (*o->string)
	    error_string("duplicate option", arg);
	*o->string = attached ? arg + 2 : next_arg;
	return(!attached);
    }
    if (!o->boolean || arg[2])
	error_string("invalid option", arg);
    if (*o->boolean)
	error_string("duplicate option", arg);
    *o->boolean = True;
    return(False);"""),
("""static Boolean split_option(""","""static Option *find_option(option, name)
Option *option;
char name;
{
    if (!option)
	return NULL;
    for (; option->name; option++)
	if (option->name == name)
	    return option;
    return NULL;
}

static Boolean split_option("""),
("""    void *p;
    p = calloc(number, size);
    if (!p)
	error("unable to allocate memory");
    return(p);""","""    void *p = calloc(number, size);
    if (p != NULL)
	return(p);
    error("unable to allocate memory");"""),
("""    if (!filename)
	return(mode[0] == 'r' ? stdin : stdout);
    f = fopen(filename, mode);
    if (f)
	return(f);
    if (mode[0] == 'w')
	error_string("unable to create file", filename);
    else
	error_string("unable to open file", filename);""","""    Boolean reading = (*mode == 'r');
    if (filename == NULL)
    {
	if (reading)
	    return(stdin);
	return(stdout);
    }
    f = fopen(filename, mode);
    if (f == NULL)
	error_string(*mode == 'w' ? "unable to create file" : "unable to open file", filename);
    return(f);"""),
])
sub('synctext.c',[("""	if (heuristic || argc > 2)
	    synchronize(&synclist1, argc, text);
	else
	    fastukk_sync(&synclist1, text);""","""	if (argc == 2 && !heuristic)
	    fastukk_sync(&synclist1, text);
	else
	    synchronize(&synclist1, argc, text);""")])
