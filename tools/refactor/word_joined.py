import re,sys
p=sys.argv[1]+'/src/word.c'
s=open(p).read()
a=s.index("static Char* find_next_boundary(start)")
b=s.index("/**********************************************************************/\n\nstatic size_t find_utf8_length")
body=s[a:b]
rules=body[body.index("        /* WB3: Do not"):body.index("        /* WB14")]
rules=rules.replace("continue;","return True;").replace("break;","return False;")
new="""static Boolean joined(lookbehind, left, right, lookahead)
    wb_property lookbehind, left, right, lookahead;
{
"""+rules+"""
    return False;
}

static Char* find_next_boundary(start)
    Char *start;
{
    Char *current, *next;
    wb_property lookbehind = sot, left;
    if (start == NULL)
        return NULL;
    for (current = start; ; current = next) {
        next = skip_to_next(current);
        left = char_property(current);
        if (next == NULL || !joined(lookbehind, left, char_property(next), char_property(skip_to_next(next))))
            return skip_to_end_of_extend(current);
        lookbehind = left;
    }
}
"""
s=s[:a]+new+s[b:]
open(p,'w').write(s)
