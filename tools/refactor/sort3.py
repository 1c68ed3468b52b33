import sys
p=sys.argv[1]+'/src/sort.c'
s=open(p).read()
s=s.replace('''    long i, j;
    void *ref;
''','''    long i, j;
    void *ref;
    while (left < right)
    {
''').replace('''    if (left < --j)
	quicksort(left, j);
    if (++i < right)
	quicksort(i, right);
''','''    if (left < j - 1)
	quicksort(left, j - 1);
    left = i + 1;
    }
''')
open(p,'w').write(s)
