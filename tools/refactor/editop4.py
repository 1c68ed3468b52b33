import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('editop.c', ('''    Boolean for_insertion, for_deletion;
''', '''    short saved;
'''), ('''	    candidate[*sync->match + 1].for_insertion = True;
''', '''	    candidate[*sync->match + 1].saved++;
'''), ('''	    candidate[*sync->next->match].for_deletion = True;
''', '''	    candidate[*sync->next->match].saved++;
'''), ('''	reduction = 1;
	if (candidate[i].for_insertion)
	    reduction++;
	if (candidate[i].for_deletion)
	    reduction++;
''', '''	reduction = 1 + candidate[i].saved;
'''))
