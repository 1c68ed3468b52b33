import sys
R = sys.argv[1] + "/src/"
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, "w").write(s)

ed('accrpt.c', ('''    if (denominator == 0)
        fprintf(f, "  ------");
    else
        fprintf(f, "%8.2f", 100.0 * numerator / denominator);
''', '''    double percent;
    if (denominator > 0)
    {
	percent = (double) numerator / denominator * 100.0;
	fprintf(f, "%8.2f", percent);
    }
    else
	fputs("  ------", f);
'''))
ed('wacrpt.c', ('''    if (wac->count == 0)
	fputs("  ------", f);
    else
	fprintf(f, "%8.2f", 100.0 * (wac->count - wac->missed) / wac->count);
''', '''    long right = wac->count - wac->missed;
    if (!wac->count)
    {
	fprintf(f, "  ------");
	return;
    }
    fprintf(f, "%8.2f", right * 100.0 / wac->count);
'''), ('''    if (wac)
    {
	fprintf(f, "%8ld %8ld ", wac->count, wac->missed);
	write_pct(f, wac);
    }
    else
	fputs("   Count   Missed   %Right", f);
''', '''    if (!wac)
	fputs("   Count   Missed   %Right", f);
    else
    {
	fprintf(f, "%8ld ", wac->count);
	fprintf(f, "%8ld ", wac->missed);
	write_pct(f, wac);
    }
'''))
ed('ci.c', ('''    return(100.0 * (count - missed) / count);
''', '''    double right = count - missed;
    return(100.0 * right / count);
'''))
ed('wordaccci.c', ('''    100.0 * (wacdata.total.count - wacdata.total.missed) / wacdata.total.count);
''', '''    100.0 - 100.0 * wacdata.total.missed / wacdata.total.count);
'''))
