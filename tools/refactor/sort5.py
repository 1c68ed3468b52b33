import sys
p=sys.argv[1]+'/src/sort.c'
s=open(p).read()
i=s.index('static void quicksort'); j=s.index('/****',i)
s=s[:i]+'''static void swap(x, y)
long x, y;
{
    void *temp = a[x];
    a[x] = a[y];
    a[y] = temp;
}

static void quicksort(left, right)
long left, right;
{
    long i, j;
    void *ref;
    if (left >= right)
	return;
    swap(left + (right - left) / 2, right);
    ref = a[right];
    i = left;
    for (j = left; j < right; j++)
	if ((*cmp)(a[j], ref) < 0)
	    swap(i++, j);
    swap(i, right);
    quicksort(left, i - 1);
    quicksort(i + 1, right);
}
'''+s[j:]
open(p,'w').write(s)
