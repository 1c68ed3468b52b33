import sys
p=sys.argv[1]+'/src/sort.c'
s=open(p).read()
i=s.index('static void quicksort'); j=s.index('/****',i)
s=s[:i]+'''static long part(left, right)
long left, right;
{
    void *ref = a[left];
    for (;;)
    {
	for (; left < right && (*cmp)(ref, a[right]) < 0; right--);
	if (left == right)
	    break;
	a[left] = a[right];
	left++;
	for (; left < right && (*cmp)(a[left], ref) < 0; left++);
	if (left == right)
	    break;
	a[right] = a[left];
	right--;
    }
    a[left] = ref;
    return(left);
}

static void quicksort(left, right)
long left, right;
{
    long middle;
    if (left >= right)
	return;
    middle = part(left, right);
    quicksort(left, middle - 1);
    quicksort(middle + 1, right);
}
'''+s[j:]
open(p,'w').write(s)
