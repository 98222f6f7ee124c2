"""Contracts assumed of classes of the code that are out of reach of the verifier, tried on all small objects of them.

These are bounded checks, not proofs: they stand in for the contracts named here (regular expressions made of a rule,
the trie of affixes, reading of lines).
"""

import itertools
import os
import tempfile
import zipfile

import harness.real  # noqa: F401 (makes the code importable)
import spec.model as model
import spec.reading as reading
from contracts.lemmas import texts
from harness import canon


def aff():
    import spylls.hunspell.data.aff
    return spylls.hunspell.data.aff


def flag_sets(flags, depth):
    subsets = [set(), {flags[0]}, {flags[1]}, set(flags)]
    for size in range(1, depth + 1):
        yield from itertools.product(subsets, repeat=size)


def rule_texts():
    for size in (1, 2, 3):
        for items in itertools.product(itertools.product((0, 1), ('', '*', '?')), repeat=size):
            yield 'a.', ''.join('a.'[flag] + mark for flag, mark in items)
            yield ('1', '11'), ''.join(f"({('1', '11')[flag]}){mark}" for flag, mark in items)


def rules(method):
    def cases():
        for flags, text in rule_texts():
            real, specified = aff().CompoundRule(text), model.CompoundRule(text)
            for sets in flag_sets(flags, 4):
                yield (text, sets), bool(getattr(real, method)(list(sets))), getattr(specified, method)(list(sets))
    return cases


def phonetic_rules():
    for letters, optional, dashes, flags in itertools.product(
            ['A', 'B', 'AA', 'AB', 'BA'], ['', '(A)', '(AB)'], ['', '-', '--'], ['', '^', '$', '^$']):
        if len(dashes) <= len(letters) + bool(optional):
            yield letters + optional + dashes + flags


def consumed():
    for search in phonetic_rules():
        real, = aff().PhonetTable([(search, 'X')]).rules[search[0]]
        specified, = model.PhonetTable([(search, 'X')]).rules_for(search[0])
        for word in texts('AB', 4):
            for pos in range(len(word)):
                match = real.match(word, pos)
                yield (search, word, pos), match.end() - match.start() if match else None, specified.consumed(word, pos)


def replacements():
    for search, replacement in itertools.product(phonetic_rules(), ['', 'X', 'ab']):
        real, = aff().PhonetTable([(search, replacement)]).rules[search[0]]
        yield (search, replacement), real.replacement, model.phonet_rule(search, replacement).replacement


def affixes(kind):
    def cases():
        real = getattr(aff(), 'Suffix' if kind == 'SFX' else 'Prefix')
        for adds in itertools.product(['', 'a', 'b', 'ab', 'ba', 'aa', 'aab'], repeat=3):
            for flags in ('FFF', 'FGF'):
                tables, others = {}, {}
                for flag, add in zip(flags, adds):
                    tables.setdefault(flag, []).append(real(flag, True, 'x', add, '.', set()))
                    others.setdefault(flag, []).append(model.Affix(kind, flag, True, 'x', add, '.', set()))
                code, specified = aff().Aff(SET='UTF-8', **{kind: tables}), model.Aff(**{kind: others})
                for word in texts('ab', 4):
                    if kind == 'SFX':
                        found, wanted = code.suffixes_index.lookup(word[::-1]), specified.suffixes_for(word)
                    else:
                        found, wanted = code.prefixes_index.lookup(word), specified.prefixes_for(word)
                    yield (adds, flags, word), [(affix.flag, affix.add) for affix in found], \
                        [(affix.flag, affix.add) for affix in wanted]
    return cases


def again(reader, data, encoding):
    """The rest of the file after its first line, in another encoding"""
    expected = reading.Lines(data, 'Windows-1252')
    if not expected.take(1):
        return
    next(reader)
    first = reader.io
    reader.reset_encoding(encoding)
    first.close()
    expected.reset_encoding(encoding)
    yield (data, encoding, 'reset'), list(reader), list(expected)
    reader.io.close()


def lines():
    from spylls.hunspell.readers.file_reader import FileReader, ZipReader
    with tempfile.TemporaryDirectory(prefix='verif-') as folder:
        path, archive = os.path.join(folder, 'file'), os.path.join(folder, 'archive.zip')
        for mark, text, encoding in itertools.product((b'', b'\xef\xbb\xbf'), texts('aé \n', 4), ('Windows-1252', 'UTF-8')):
            data = mark + text.replace('\n', '\r\n' if text.startswith('a') else '\n').encode(encoding)
            with open(path, 'wb') as file:
                file.write(data)
            reader = FileReader(path, encoding=encoding)
            yield (data, encoding, 'file'), list(reader), reading.text_lines(data, encoding)
            reader.io.close()
            yield from again(FileReader(path, encoding='Windows-1252'), data, encoding)
        for text in texts('a\n', 4):
            data = text.encode()
            with zipfile.ZipFile(archive, 'w') as file:
                file.writestr('file', data)
            with zipfile.ZipFile(archive) as file, file.open('file') as member:
                yield (data, 'zip'), list(ZipReader(member, encoding='UTF-8')), reading.text_lines(data, 'UTF-8')


def directives():
    """Values given to the constructor stay, other directives have their defaults"""
    class Items(list):
        pass

    class Table(dict):
        pass

    yield 'none given', canon.canon_aff(aff().Aff()), canon.canon_aff(model.Aff())
    for name in [*model.DEFAULTS, *model.TABLES]:
        kind = model.TABLES.get(name)
        value = Table() if kind is dict else Items() if kind is list else 'given'
        made = aff().Aff(**{name: value})
        yield (name, 'given'), getattr(made, name) is value, True
        setattr(made, name, getattr(aff().Aff(), name))
        yield (name, 'others'), canon.canon_aff(made), canon.canon_aff(model.Aff())


TRIALS = {
    'Aff()': ('every directive given alone, and none', directives),
    'CompoundRule.fullmatch': ('rules of up to 3 flags with marks, up to 4 parts', rules('fullmatch')),
    'CompoundRule.partial_match': ('rules of up to 3 flags with marks, up to 4 parts', rules('partial_match')),
    'PhonetRule.consumed': ('rules of up to 2 letters, at every place of words of A and B up to length 4', consumed),
    'PhonetTable.parse_rule': ('rules of up to 2 letters, some replacements', replacements),
    'Aff.suffixes_for': ('sets of 3 suffixes, words of a and b up to length 4', affixes('SFX')),
    'Aff.prefixes_for': ('sets of 3 prefixes, words of a and b up to length 4', affixes('PFX')),
    'Source.__iter__': ('files of up to 4 characters, with and without byte-order mark, in two encodings', lines),
}


def tried(name):
    """(what is tried, how many of it, the first one the code and the specification disagree on or None)"""
    what, cases = TRIALS[name]
    count = 0
    try:
        for case, found, wanted in cases():
            count += 1
            if found != wanted:
                return what, count, f'{case!r}: {found!r}, not {wanted!r}'
    except Exception as error:      # a class of another shape
        return what, count, f'not tried: {type(error).__name__}: {error}'
    return what, count, None
