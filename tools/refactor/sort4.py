import sys
p=sys.argv[1]+'/src/sort.c'
s=open(p).read()
s=s.replace('''	while (i < j && (*cmp)(ref, a[j]) < 0)
	    j--;
	if (i != j)
	    a[i++] = a[j];
''','''	while (i < j)
	{
	    if ((*cmp)(ref, a[j]) >= 0)
	    {
		a[i] = a[j];
		i++;
		break;
	    }
	    j--;
	}
''')
open(p,'w').write(s)
