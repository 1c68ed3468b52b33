import sys
R = sys.argv[1] + '/src/'
def ed(f, *prs):
    s = open(R + f).read()
    for a, b in prs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, 'w').write(s)
ed('word.c', ('''    for (current = start; current != after; current = current->next) {
        assert(current != NULL);
        /* Do a dummy encoding of the character for the side-effect of
         * returning its length. */
        encoded_length = utf8proc_encode_char(current->value, dummy_buffer);
        assert(encoded_length > 0);

        len += encoded_length;
    }

    return len;
''', '''    current = start;
    while (current != after) {
        assert(current != NULL);
        encoded_length = utf8proc_encode_char(current->value, dummy_buffer);
        assert(encoded_length > 0);
        current = current->next;
        len = len + encoded_length;
    }

    return len;
'''), ('''    Char *current;
    size_t i = 0;

    for (current = start; current != after; current = current->next) {
        assert(current != NULL);
        i += utf8proc_encode_char(current->value, (utf8proc_uint8_t*) &buffer[i]);
    }

    /* Null-terminate the buffer. */
    buffer[i] = '\\0';
''', '''    while (start != after) {
        assert(start != NULL);
        buffer += utf8proc_encode_char(start->value, (utf8proc_uint8_t*) buffer);
        start = start->next;
    }
    *buffer = 0;
'''), ('''    Word *word;
    Char *after = end->next;
    size_t len = find_utf8_length(start, after);
    char *buffer = NEW_ARRAY(len + 1, char);
    copy_into_buffer(buffer, start, after);

    word = NEW(Word);
    /* Convert the null-terminated string to NFC. */
    word->string = (char *) utf8proc_NFC((const utf8proc_uint8_t *) buffer);
    if (word->string == NULL) {
        error("unable to normalize word");
    }
    list_insert_last(wordlist, word);
    free(buffer);
''', '''    char *buffer = encoded(start, end->next);
    utf8proc_uint8_t *string = utf8proc_NFC((const utf8proc_uint8_t *) buffer);
    Word *word;
    free(buffer);
    if (!string) {
        error("unable to normalize word");
    }
    word = NEW(Word);
    list_insert_last(wordlist, word);
    word->string = (char *) string;
'''), ('''static void append_word(wordlist, start, end)
''', '''static char *encoded(start, after)
    Char *start, *after;
{
    char *buffer = NEW_ARRAY(find_utf8_length(start, after) + 1, char);
    copy_into_buffer(buffer, start, after);
    return buffer;
}

static void append_word(wordlist, start, end)
'''), ('''    Char *first = text->first, *last;

    while ((last = find_next_boundary(first)) != NULL) {
        /* Only append this segment if it starts with a "word-y" character. */
        if (is_word_start(first->value)) {
            append_word(wordlist, first, last);
        }

        /* Advance to the next segment. */
        first = last->next;
    }
''', '''    Char *first, *last;

    for (first = text->first; first; first = last->next) {
        last = find_next_boundary(first);
        if (!is_word_start(first->value)) {
            continue;
        }
        append_word(wordlist, first, last);
    }
'''), ('''    /* Not found, therefore not specified. */
    if (right < left) {
        return Other;
    }

    const size_t midpoint = left + (right - left) / 2;
    const wb_range *middle = &WORD_BREAK_PROPERTY[midpoint];

    if (code_point < middle->start) {
        return search_for_property(code_point, left, midpoint - 1);
    } else if (code_point > middle->end) {
        return search_for_property(code_point, midpoint + 1, right);
    } else {
        assert(code_point >= middle->start && code_point <= middle->end);
        return middle->value;
    }
''', '''    while (left <= right) {
        int midpoint = (left + right) / 2;
        const wb_range *middle = WORD_BREAK_PROPERTY + midpoint;
        if (code_point > middle->end)
            left = midpoint + 1;
        else if (code_point < middle->start)
            right = midpoint - 1;
        else
            return middle->value;
    }
    return Other;
'''), ('''    if (from == NULL) {
        return NULL;
    }

    if (is_newline(from)) {
        return from;
    }

    /* Skip until the LAST extend or format character. */
    while (from->next != NULL && ExtendOrFormat(char_property(from->next))) {
        from = from->next;
    }

    return from;
''', '''    Char *next;
    if (from != NULL && !is_newline(from)) {
        for (next = from->next; next; next = next->next) {
            if (!ExtendOrFormat(char_property(next)))
                break;
            from = next;
        }
    }
    return from;
'''), ('''    if (is_newline(from)) {
        return from->next;
    }

    do {
        from = from->next;
    } while (from != NULL && ExtendOrFormat(char_property(from)));
    return from;
''', '''    Boolean newline = is_newline(from);
    from = from->next;
    if (newline) {
        return from;
    }
    for (;;) {
        if (from == NULL)
            break;
        if (!ExtendOrFormat(char_property(from)))
            break;
        from = from->next;
    }
    return from;
'''), ('''    while (current->next != NULL) {
        /* Advance all the pointers. */
        current = skip_to_next(current);
        lookbehind = left;
        left = char_property(current);
        right = char_property(skip_to_next(current));
        lookahead = char_property(skip_twice(current));
''', '''    for (;;) {
        Char *follow;
        if (current->next == NULL)
            break;
        /* Advance all the pointers. */
        lookbehind = left;
        current = skip_to_next(current);
        follow = skip_to_next(current);
        left = char_property(current);
        right = char_property(follow);
        lookahead = char_property(skip_to_next(follow));
'''), ('''    switch (props->category) {
        case UTF8PROC_CATEGORY_LU: /**< Letter, uppercase */
        case UTF8PROC_CATEGORY_LL: /**< Letter, lowercase */
        case UTF8PROC_CATEGORY_LT: /**< Letter, titlecase */
        case UTF8PROC_CATEGORY_LM: /**< Letter, modifier */
        case UTF8PROC_CATEGORY_LO: /**< Letter, other */
        case UTF8PROC_CATEGORY_MN: /**< Mark, nonspacing */
        case UTF8PROC_CATEGORY_MC: /**< Mark, spacing combining */
        case UTF8PROC_CATEGORY_ME: /**< Mark, enclosing */
        case UTF8PROC_CATEGORY_ND: /**< Number, decimal digit */
        case UTF8PROC_CATEGORY_NL: /**< Number, letter */
        case UTF8PROC_CATEGORY_NO: /**< Number, other */
        case UTF8PROC_CATEGORY_PC: /**< Punctuation, connector */
            /* Allow for private use characters. */
        case UTF8PROC_CATEGORY_CO: /**< Other, private use */
            return True;
        default:
            return False;
    }
''', '''    int category = props->category;
    if (category >= UTF8PROC_CATEGORY_LU && category <= UTF8PROC_CATEGORY_PC)
        return True;
    return(category == UTF8PROC_CATEGORY_CO ? True : False);
'''))
ed('stopword.c', ('''    stopword = table_lookup(&stopwordtable, key);
    if (stopword)
	warning_string("duplicate stopword", key);
    else
    {
	stopword = NEW(Stopword);
	stopword->key = key;
	table_insert(&stopwordtable, stopword);
    }
''', '''    if (table_lookup(&stopwordtable, key))
    {
	warning_string("duplicate stopword", key);
	return;
    }
    stopword = NEW(Stopword);
    stopword->key = key;
    table_insert(&stopwordtable, stopword);
'''), ('''	for (i = 0; i < sizeof(default_stopword) / sizeof(char *); i++)
	    save_stopword(default_stopword[i]);
''', '''    {
	char **s = default_stopword;
	for (i = sizeof(default_stopword) / sizeof(char *); i > 0; i--)
	    save_stopword(*s++);
    }
'''))
ed('wordfreq.c', ('''    read_text(&text, filename, &textopt);
    find_words(&wordlist, &text);
    for (word = wordlist.first; word; word = word->next)
	add_term(&termtable, word->string, 1, 0);
    list_empty(&text, free);
    list_empty(&wordlist, free_word);
''', '''    read_text(&text, filename, &textopt);
    find_words(&wordlist, &text);
    list_empty(&text, free);
    word = wordlist.first;
    while (word != NULL)
    {
	add_term(&termtable, word->string, 1L, 0L);
	word = word->next;
    }
    list_empty(&wordlist, free_word);
'''), ('''    if (term1->wac.count != term2->wac.count)
	return(term1->wac.count > term2->wac.count ? -1 : 1);
    return(order_by_key(term1, term2));
''', '''    if (term1->wac.count > term2->wac.count)
	return(-1);
    if (term1->wac.count < term2->wac.count)
	return(1);
    return(ustrcmp(term1->key, term2->key));
'''), ('''    for (i = 0; i < termtable.count; i++)
    {
	printf("%8ld   %s\\n", termtable.array[i]->wac.count,
	termtable.array[i]->key);
	total += termtable.array[i]->wac.count;
    }
''', '''    Term **t = termtable.array;
    for (i = termtable.count; i > 0; i--, t++)
    {
	Term *term = *t;
	total += term->wac.count;
	printf("%8ld   %s\\n", term->wac.count, term->key);
    }
'''))
ed('ngram.c', ('''    for (i = 0; i < n && sequence1->value[i] == sequence2->value[i]; i++);
    if (i < n)
	return(sequence1->value[i] < sequence2->value[i] ? -1 : 1);
    return(0);
''', '''    for (i = 0; i < n; i++)
    {
	if (sequence1->value[i] < sequence2->value[i])
	    return(-1);
	if (sequence1->value[i] > sequence2->value[i])
	    return(1);
    }
    return(0);
'''), ('''    if (!nstring)
	return(1);
    if (nstring[0] >= '1' && nstring[0] <= '0' + MAX_N && !nstring[1])
	return(nstring[0] - '0');
    error_string("invalid value", nstring);
''', '''    int value;
    if (!nstring)
	return(1);
    value = nstring[0] - '0';
    if (value < 1 || value > MAX_N || nstring[1] != '\\0')
	error_string("invalid value", nstring);
    return(value);
'''), ('''    for (i = 0; i < seqtable.count; i++)
	printf("%8ld %8ld   {%s}\\n", seqtable.array[i]->count,
	seqtable.array[i]->suspect, seqtable.array[i]->key);
''', '''    Sequence *s;
    i = 0;
    while (i < seqtable.count)
    {
	s = seqtable.array[i++];
	printf("%8ld %8ld   {%s}\\n", s->count, s->suspect, s->key);
    }
'''))
