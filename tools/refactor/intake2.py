import sys
R = sys.argv[1] + "/src/"
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, "w").write(s)

ed('accuracy.c', ('''    read_text(&text[0], argv[0], &textopt);
    if (textopt.found_header)
	error("no correct file specified");
    read_text(&text[1], argv[1], &textopt);
''', '''    read_texts(argv);
'''), ('''main(argc, argv)
''', '''void read_texts(filename)
char **filename;
{
    int i;
    for (i = 0; i < 2; i++)
    {
	read_text(text + i, filename[i], &textopt);
	if (textopt.found_header && i == 0)
	    error("no correct file specified");
    }
}
/**********************************************************************/

main(argc, argv)
'''))
ed('editop.c', ('''    if (textopt.found_header)
	error("no correct file specified");
    read_text(&text2, argv[1], &textopt);
''', '''    if (!textopt.found_header)
	read_text(&text2, argv[1], &textopt);
    else
	error("no correct file specified");
'''))
ed('vote.c', ('''Textopt textopt = { True, True, 0, True, True };
''', '''Textopt textopt;
'''), ('''    for (i = 0; i < argc; i++)
    {
	voter[i] = NEW(Voter);
''', '''    textopt.find_header = textopt.find_markers = True;
    textopt.suspect_marker = SUSPECT_MARKER;
    textopt.normalize = True;
    for (i = 0; i < argc; i++)
    {
	voter[i] = NEW(Voter);
'''))
ed('groupacc.c', ('''Textopt textopt = { False, True, 0, True, True };
''', '''static Textopt textopt = { .find_markers = True, .normalize = True };
'''))
ed('nonstopacc.c', ('''Textopt textopt = { False, False, 0, True, True, True };
''', ''''''), ('''    initialize(&argc, argv, usage, NULL);
''', '''    Textopt textopt = { .normalize = True, .case_insensitive = True };
    initialize(&argc, argv, usage, NULL);
'''))
ed('wordacc.c', ('''	if (i == 0 && textopt.found_header)
	    error("no correct file specified");
''', '''	if (!i)
	    if (textopt.found_header)
		error("no correct file specified");
'''))
ed('wordfreq.c', ('''Textopt textopt = { True, True, 0, True, True, True };
''', '''Textopt textopt = { True, True, '^', False, True, True };
'''))
