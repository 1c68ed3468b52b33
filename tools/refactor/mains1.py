import sys
def sub(p, pairs):
    p=sys.argv[1]+'/src/'+p
    s=open(p).read()
    for a,b in pairs:
        if s.count(a)<1: print('NOT FOUND', a); continue
        s=s.replace(a,b)
    open(p,'w').write(s)
sub('accuracy.c',[("""    if (argc < 2 || argc > 3)
	error("invalid number of files");
    read_text(&text[0], argv[0], &textopt);
    if (textopt.found_header)
	error("no correct file specified");
    read_text(&text[1], argv[1], &textopt);""","""    check_args(argc);
    read_inputs(argv);"""),("""    write_accrpt(&accdata, (argc == 3 ? argv[2] : NULL));""","""    if (argc > 2)
	outfile = argv[2];
    write_accrpt(&accdata, outfile);"""),("""    Synclist synclist;
    initialize""","""    Synclist synclist;
    char *outfile = NULL;
    initialize"""),("""main(argc, argv)""","""static void check_args(argc)
int argc;
{
    switch (argc)
    {
	case 2:
	case 3:
	    return;
    }
    error("invalid number of files");
}

static void read_inputs(argv)
char *argv[];
{
    short i;
    for (i = 0; i < 2; i++)
    {
	read_text(text + i, argv[i], &textopt);
	if (!i && textopt.found_header)
	    error("no correct file specified");
    }
}

main(argc, argv)""")])
sub('accsum.c',[("""    for (i = 0; i < argc; i++)
	read_accrpt(&accdata, argv[i]);""","""    do
	read_accrpt(&accdata, *argv++);
    while (--argc > 0);""")])
sub('wordfreq.c',[("""    for (i = 0; i < argc; i++)
	process_file(argv[i]);""","""    char **end = argv + argc;
    while (argv < end)
	process_file(*argv++);""")])
sub('editopcost.c',[("""    if (argc == 2)
    {
	read_edorpt(&edodata2, argv[1]);
	decrement_edodata();
    }
    write_results();""","""    subtract_second(argc > 1 ? argv[1] : NULL);
    write_results();"""),("""main(argc""","""void subtract_second(filename)
char *filename;
{
    if (filename == NULL)
	return;
    read_edorpt(&edodata2, filename);
    decrement_edodata();
}
main(argc""")])
