"""Specification of reading: what the bytes of an affix file and a word list say."""

import re
from collections import defaultdict
from dataclasses import dataclass, field

from spec.model import (
    Aff, Affix, BreakPattern, CapType, CompoundPattern, CompoundRule, ConvTable, Dic, PhonetTable, RepPattern, Word, without)
from spec.lookup import Lookup
from spec.suggest import Suggest

SYNONYMS = {'PSEUDOROOT': 'NEEDAFFIX', 'COMPOUNDLAST': 'COMPOUNDEND'}
STRINGS = ['SET', 'FLAG', 'KEY', 'TRY', 'WORDCHARS', 'LANG']
NUMBERS = ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX']
FLAGS = ['NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'NEEDAFFIX', 'FORBIDDENWORD', 'WARN', 'COMPOUNDFLAG', 'COMPOUNDBEGIN',
         'COMPOUNDMIDDLE', 'COMPOUNDEND', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'FORCEUCASE',
         'SUBSTANDARD', 'SYLLABLENUM', 'COMPOUNDROOT']
SWITCHES = ['COMPLEXPREFIXES', 'FULLSTRIP', 'NOSPLITSUGS', 'CHECKSHARPS', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP',
            'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'ONLYMAXDIFF', 'COMPOUNDMORESUFFIXES']
BOMS = ['ï»¿', '﻿']


def text_lines(content, encoding):
    """Non-blank lines of the file, stripped, with their numbers; the byte order mark dropped"""
    text = content.decode(encoding, errors='surrogateescape')
    lines = text.replace('\r\n', '\n').replace('\r', '\n').split('\n')
    for bom in BOMS:
        if lines[0].startswith(bom):
            lines[0] = lines[0][len(bom):]
    return [(i + 1, line.strip()) for i, line in enumerate(lines) if line.strip() != '']


class Lines:
    """Lines of a file that are not read yet"""

    def __init__(self, content, encoding):
        self.content = content
        self.lines = text_lines(content, encoding)
        self.pos = 0

    def __iter__(self):
        return iter(self.lines[self.pos:])

    def take(self, count):
        """The next lines (as many as there are), with their numbers"""
        found = self.lines[self.pos:self.pos + count]
        self.pos += len(found)
        return found

    def reset_encoding(self, encoding):
        """What follows the last line taken is read in the encoding"""
        number = self.lines[self.pos - 1][0]
        self.lines = [line for line in text_lines(self.content, encoding) if line[0] > number]
        self.pos = 0


@dataclass
class Ignore:
    chars: str

    def remove(self, text):
        return without(self.chars, text)


def pairs(text):
    """Characters two by two"""
    return [text[i:i + 2] for i in range(0, len(text) - 1, 2)]


def numbers(text):
    """What is between commas"""
    return [number for number in text.split(',') if number]


@dataclass
class Context:
    encoding: str = 'Windows-1252'
    flag_format: str = 'short'
    flag_synonyms: dict = field(default_factory=dict)
    ignore: object = None

    def flags(self, text):
        """Set of flags: those of the alias if there are aliases and this is a number"""
        if self.flag_synonyms and text.isdigit():
            return self.flag_synonyms[text]
        return set(self.split(text))

    def flag(self, text):
        return self.split(text)[0]

    def split(self, text):
        if self.flag_format == 'long':
            return pairs(text)
        if self.flag_format == 'num':
            return numbers(text)
        return list(text)


def bracketed(text):
    """'a(bc)d' -> ['a', '(bc)', 'd']"""
    groups = []
    pos = 0
    while pos < len(text):
        end = text.index(')', pos) if text[pos] == '(' else pos
        groups.append(text[pos:end + 1])
        pos = end + 1
    return groups


def without_brackets(text):
    return text.replace('(', '').replace(')', '')


def fields(line):
    return re.split(r'\s+', line)


def affix(kind, flag, crossproduct, row, context):
    strip, rest = row[1], row[2]
    add, _, flags = rest.partition('/')
    if context.ignore:
        add = context.ignore.remove(add)
    return Affix(kind, flag, crossproduct == 'Y', '' if strip == '0' else strip, '' if add == '0' else add,
                 row[3] if len(row) > 3 else '', set(context.flags(flags)))


def read_value(source, name, *args, context):
    """Value of the directive (None: not a directive, or nothing is said); rows of tables follow in the source"""
    def rows(count):
        return [fields(line)[1:] for _, line in source.take(count)]

    if name in STRINGS:
        return args[0] if args else None
    if name in NUMBERS:
        return int(args[0])
    if name == 'COMPOUNDMIN':
        return max(int(args[0]), 1)
    if name in FLAGS:
        return context.flag(args[0])
    if name in SWITCHES:
        return True
    if name == 'IGNORE':
        return Ignore(args[0])
    if name == 'BREAK':
        return [BreakPattern(row[0]) for row in rows(int(args[0]))]
    if name == 'COMPOUNDRULE':
        return [CompoundRule(row[0]) for row in rows(int(args[0]))]
    if name in ('ICONV', 'OCONV'):
        return ConvTable([(row[0], row[1]) for row in rows(int(args[0]))])
    if name == 'REP':
        return [RepPattern(row[0], row[1]) for row in rows(int(args[0]))]
    if name == 'MAP':
        return [[without_brackets(group) for group in bracketed(row[0])] for row in rows(int(args[0]))]
    if name in ('SFX', 'PFX'):
        return [affix(name, args[0], args[1], row, context) for row in rows(int(args[2]))]
    if name == 'CHECKCOMPOUNDPATTERN':
        return [CompoundPattern(row[0], row[1], row[2] if len(row) > 2 else None) for row in rows(int(args[0]))]
    if name == 'AF':
        return {str(i + 1): set(context.flags(row[0])) for i, row in enumerate(rows(int(args[0])))}
    if name == 'AM':
        return {str(i + 1): set(row) for i, row in enumerate(rows(int(args[0])))}
    if name == 'COMPOUNDSYLLABLE':
        return (int(args[0]), args[1])
    if name == 'PHONE':
        return PhonetTable([(row[0], '' if row[1] == '_' else row[1]) for row in rows(int(args[0]))])
    return None


def is_name(text):
    """Capital letters"""
    return text.isascii() and text.isalpha() and text == text.upper()


def read_directive(source, line, *, context):
    """(name, value) if the line is a directive"""
    name, *args = fields(line)
    if not is_name(name):
        return None
    name = SYNONYMS.get(name, name)
    value = read_value(source, name, *args, context=context)
    return None if value is None else (name, value)


def read_aff(source):
    context = Context()
    values = {'SFX': {}, 'PFX': {}, 'FLAG': 'short'}
    while True:
        lines = source.take(1)
        if not lines:
            break
        found = read_directive(source, lines[0][1], context=context)
        if found is None:
            continue
        name, value = found
        if name in ('SFX', 'PFX'):
            if value:
                values[name][value[0].flag] = value
            continue
        values[name] = value
        if name == 'FLAG':
            context.flag_format = value
        if name == 'AF':
            context.flag_synonyms = value
        if name == 'IGNORE':
            context.ignore = value
        if name == 'SET':
            context.encoding = value
            source.reset_encoding(value)
        if name == 'FLAG' and value == 'UTF-8':
            values['SET'] = context.encoding = 'UTF-8'
            source.reset_encoding('UTF-8')
    return Aff(**values), context


def is_count(line):
    return line.split()[0].isdecimal()


def tag_at(line, pos):
    """Whether blanks and then a two-letter tag begin at this position"""
    rest = line[pos:].lstrip(' \t')
    return (line[pos] in ' \t' and len(rest) > 2 and is_word_char(rest[0]) and is_word_char(rest[1])
            and rest[2] == ':')


def is_word_char(char):
    return char == '_' or char.isalnum()


def tag_start(line):
    """Position of the first blanks before a tag"""
    starts = [i for i in range(0, len(line)) if tag_at(line, i)]
    return starts[0] if starts else None


def data_start(line):
    """Where the data of the word begin: at a tab or at blanks before a tag"""
    tab, tag = line.find('\t'), tag_start(line)
    if tab == -1:
        return tag
    return tab if tag is None or tab < tag else tag


def slashed(text):
    """Parts between the first two slashes that are not escaped"""
    parts = [text]
    for _ in range(2):
        found = [i for i in range(0, len(parts[-1])) if parts[-1][i] == '/' and (i == 0 or parts[-1][i - 1] != '\\')]
        if found:
            parts[-1:] = [parts[-1][:found[0]], parts[-1][found[0] + 1:]]
    return parts


def split_flags(text):
    """(stem, flags)"""
    parts = slashed(text)
    if text.startswith('/') or len(parts) != 2:
        return (text.replace('\\/', '/'), '')
    return (parts[0].replace('\\/', '/'), parts[1])


def parse_data(text, aliases):
    data = defaultdict(list)
    given = fields(text)
    expanded = [tag for field in given if ':' not in field and field.isdigit() and aliases
                for tag in aliases[field] if not tag.isdigit()]
    for field in [*given, *expanded]:
        tag, colon, content = field.partition(':')
        if colon and content:
            data[tag].append(content)
    return data


def read_dic(source, *, aff, context):
    words = []
    for number, line in source:
        if number == 1 and is_count(line):
            continue
        start = data_start(line)
        stem, flags = split_flags(line if start is None else line[:start])
        if context.ignore:
            stem = context.ignore.remove(stem)
        data = {} if start is None else parse_data(line[start:], aff.AM)
        spellings = []
        for spelling in data.get('ph', []):
            if spelling.endswith('*'):
                aff.REP.append(RepPattern(spelling[:-2], stem[:-1]))
            elif '->' in spelling:
                wrong, _, right = spelling.partition('->')
                aff.REP.append(RepPattern(wrong, right))
            else:
                aff.REP.append(RepPattern(spelling, stem))
                spellings.append(spelling)
        words.append(Word(stem, set(context.flags(flags)), data, spellings, aff.casing.guess(stem)))
    return Dic(words, aff.casing)


class Dictionary:
    def __init__(self, aff_content, dic_content):
        self.aff, context = read_aff(Lines(aff_content, Context.encoding))
        self.dic = read_dic(Lines(dic_content, context.encoding), aff=self.aff, context=context)
        self.lookup = Lookup(self.aff, self.dic)
        self.suggest = Suggest(self.aff, self.dic, self.lookup)
