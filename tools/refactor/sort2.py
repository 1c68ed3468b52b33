import sys
p=sys.argv[1]+'/src/sort.c'
s=open(p).read()
i=s.index('static void **a;'); 
s=s[:i]+'''static void swap(x, y)
void **x, **y;
{
    void *temp = *x;
    *x = *y;
    *y = temp;
}

static void quicksort(a, left, right, cmp)
void **a;
long left, right;
int (*cmp)();
{
    long i = left, j = right;
    void *ref = a[left + (right - left) / 2];
    while (i <= j)
    {
	while ((*cmp)(a[i], ref) < 0)
	    i++;
	while ((*cmp)(a[j], ref) > 0)
	    j--;
	if (i <= j)
	{
	    swap(&a[i], &a[j]);
	    i++;
	    j--;
	}
    }
    if (left < j)
	quicksort(a, left, j, cmp);
    if (i < right)
	quicksort(a, i, right, cmp);
}

void sort(num_elements, array, compare)
long num_elements;
void *array[];
int (*compare)();
{
    if (num_elements > 1)
	quicksort(array, 0L, num_elements - 1, compare);
}
'''
open(p,'w').write(s)
