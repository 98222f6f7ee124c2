"""What the proofs rely on without checking it."""

BASE = [
    'pyvc: symbolic execution of the Python subset used (extraction drops docstrings, type annotations, decorators of '
    'dataclasses; generators are compared as the sequences they produce)',
    'Z3 (quantifier-free queries); each of its "unsat" answers is asked of cvc5 too and dropped if that disagrees (the '
    'number confirmed is in the evidence)',
    'CPython meaning of str, list, set and dict operations as axiomatised in pyvc/lib.py',
    'integers are mathematical; texts are sequences of code points; memory and recursion depth are unlimited; '
    'recursive functions are proved for terminating runs (C19: every recursion and loop is proved to end)',
    'library functions change nothing but their receivers (frame analysis of C18)',
    'heapq: nlargest of a heap that drops its least item when full is nlargest of all items put into it (items that '
    'compare equal without being the same, i.e. homonyms with equal score, are taken for interchangeable)',
    'sorted and nlargest are functions of the list and of what the key is of any item; sorting is stable',
    'iteration over a set gives the same order in the code and in the specification',
]

ASSUMED = {
    'CompoundRule.fullmatch': 'regular expression built from the rule (bounded: tried on all small rules)',
    'CompoundRule.partial_match': 'regular expression built from the rule (bounded: tried on all small rules)',
    'PhonetRule.consumed': 'regular expression built from the rule (bounded: tried on all small rules)',
    'PhonetTable.parse_rule': 'rule made from its text (bounded: tried on all small rules)',
    'Aff.suffixes_for': 'what a trie finds on the way to a text (bounded: tried on all small sets of suffixes)',
    'Aff.prefixes_for': 'what a trie finds on the way to a text (bounded: tried on all small sets of prefixes)',
    'Source.__iter__': 'taking lines one by one gives those of taking all of them (bounded: tried on all short files)',
    'model.occurrences': 'places where re finds a literal text between anchors (tried on all short texts)',
    'model.without': 'str.translate of a table that deletes characters (tried on all short texts)',
    'model.fits_start': 'regular expression made of a condition (tried on all short conditions and texts)',
    'model.fits_end': 'regular expression made of a condition (tried on all short conditions and texts)',
    'lookup.is_number': 'constant regular expression (tried on all short texts)',
    **{f'reading.{name}': 'constant regular expression (tried on all short texts)' for name in
       ('pairs', 'numbers', 'is_name', 'bracketed', 'without_brackets', 'is_count', 'tag_start', 'slashed')},
}

# meaning given to objects built when the dictionary is read
ADAPTORS = [
    'flags are texts that are not empty; COMPOUNDMIN is at least 1; options of MAP and patterns of ICONV, OCONV and PHONE '
    'are not empty (reading, C16 and C17)',
    'what is made by reading (patterns, affixes, tables) is made by the constructors its contracts speak about',
    'no text has a line break in it (they come from lines, or are words)',
    'open, io.TextIOWrapper and readline give the lines of a file one after another, decoded; a file opened in an archive '
    'is known by the names of the archive and of the file',
    'Source.take gives the next lines of the file, as many as there are; reading goes on after them',
    'what is put into the dictionary of read_aff makes up the Aff object (directives given stay, others have their defaults; also '
    'tried with every directive); iterating the file gives its next lines',
    'index and lowercase_index hold what read_dic put there',
]
