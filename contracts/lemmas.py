"""Facts about regular expressions and library functions, checked for all short texts.

A contract without code says that a regular expression written in the code (contracts.regexes), or made of a text in a
known way (contracts.templates, pyvc.regex), finds what a function of the specification does. That is an assumption of
the proofs; here it is tried on all texts of the letters given, up to the length given.
"""

import importlib
import itertools
import re

DEPTH = 6

# contract -> (letters, texts it speaks about)
SCOPE = {
    'lookup.is_number': ('1٣²a.\n', None),
    'reading.pairs': ('ab1,(', None),
    # flags are numbers with commas between
    'reading.numbers': ('123,', lambda text: re.fullmatch('([0-9]+(,[0-9]+)*)?', text) is not None),
    'reading.is_name': ('AZaÉ1_', None),
    'reading.bracketed': ('ab()', lambda text: well_bracketed(text)),
    'reading.without_brackets': ('ab()', None),
    'reading.is_count': ('1٣a. \t', lambda text: text == text.strip() != ''),
    'reading.tag_start': ('aé_: \t', None),
    'reading.slashed': ('ab/\\', None),
}


def well_bracketed(text):
    return re.fullmatch(r'([^()]|\([^()]+\))*', text) is not None


def by_library(key, text):
    pattern, method, *more = key
    if method == 'search':
        found = re.search(pattern, text)
        return None if found is None else found.start()
    if method in ('match', 'fullmatch'):
        return getattr(re, method)(pattern, text) is not None
    if method == 'split':
        return re.split(pattern, text, maxsplit=more[0])
    if method == 'sub':
        return re.sub(pattern, more[0], text)
    return getattr(re, method)(pattern, text)


def texts(letters, depth):
    for size in range(0, depth + 1):
        for chars in itertools.product(letters, repeat=size):
            yield ''.join(chars)


def searched(literal, start, end, behind, ahead, text):
    pattern = '^' * start + '(?<=.)' * behind + re.escape(literal) + '(?=.)' * ahead + '$' * end
    return [match.span() for match in re.finditer(pattern, text)]


def conditions(letters, depth):
    for text in texts(letters, depth):
        if re.fullmatch(r'([^\[\]^]|\[\^?[^\[\]^]+\]|(?<!\[)\^)*', text):
            yield text


def compiled(contracts, name):
    """Function searching for the regular expression the template makes of a text"""
    expression, = [expression for expression, other in contracts.templates if other == name]
    code = compile(expression, name, 'eval')
    return lambda x, text: re.search(eval(code, {'re': re, 'x': x}), text) is not None


# contract -> (what is tried, arguments, what the library does)
LIBRARY = {
    'model.occurrences': (
        'literals of a and + up to length 2, texts up to length 5, all anchors',
        lambda: ((literal, *anchors, text) for literal in texts('a+', 2) for text in texts('a+', 5)
                 for anchors in itertools.product((False, True), repeat=4)),
        lambda contracts, name: searched),
    'model.without': (
        'characters and texts of a, b and - up to length 4',
        lambda: itertools.product(texts('ab-', 4), texts('ab-', 4)),
        lambda contracts, name: lambda chars, text: text.translate(str.maketrans('', '', chars))),
    **{f'model.fits_{end}': (
        'conditions of a [ ] ^ . + \\ ( * up to length 5, texts of a + ^ \\ ( up to length 2',
        lambda: itertools.product(conditions('a[]^.+\\(*', 5), list(texts('a+^\\(', 2))),
        compiled) for end in ('start', 'end')},
}


def function(contract):
    module, _, name = contract.spec
    return getattr(importlib.import_module(module), name)


def of_regexes(contracts, name):
    letters, fits = SCOPE[name]
    keys = [key for key, other in contracts.regexes.items() if other == name]
    return (f'texts of {letters!r} up to length {DEPTH}',
            ((text,) for text in texts(letters, DEPTH) if fits is None or fits(text)),
            [lambda text, key=key: by_library(key, text) for key in keys])


def known(name):
    return name in SCOPE or name in LIBRARY


def disagreement(contracts, name):
    """(what is tried, how many of it, the first one they disagree on or None)"""
    if name in SCOPE:
        what, arguments, others = of_regexes(contracts, name)
    else:
        what, made, library = LIBRARY[name]
        arguments, others = made(), [library(contracts, name)]
    specified = function(contracts.by_name[name])
    count = 0
    for args in arguments:
        count += 1
        expected = specified(*args)
        if any(other(*args) != expected for other in others):
            return what, count, args
    return what, count, None
