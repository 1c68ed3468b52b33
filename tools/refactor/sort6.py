import sys
p=sys.argv[1]+'/src/sort.c'
s=open(p).read()
s=s.replace('''    if (num_elements < 2)
	return;
''','''    long i;
    if (num_elements < 2)
	return;
    for (i = 1; i < num_elements && (*compare)(array[i - 1], array[i]) <= 0; i++);
    if (i == num_elements)
	return;
''')
open(p,'w').write(s)
