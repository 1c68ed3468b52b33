import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('editop.c', ('''	reduction = 1;
	if (candidate[i].for_insertion)
	    reduction++;
	if (candidate[i].for_deletion)
	    reduction++;
''', '''	reduction = 1 + candidate[i].for_insertion + candidate[i].for_deletion;
'''))
