"""Specification data model: what the directives and entries mean, without regular expressions."""

from collections import defaultdict
from dataclasses import dataclass, field, replace
from enum import Enum

CapType = Enum('Type', 'NO INIT ALL HUHINIT HUH')
CompoundPos = Enum('CompoundPos', 'BEGIN MIDDLE END')


def condition_items(condition):
    """'[^ab]c.' -> [('^', 'ab'), ('', 'c'), ('^', '')]: each item (negated?, set of characters)"""
    items = []
    pos = 0
    while pos < len(condition):
        if condition[pos] == '.':
            items.append((True, ''))
            pos += 1
        elif condition[pos] == '[':
            end = condition.index(']', pos)
            body = condition[pos + 1:end]
            items.append((True, body[1:]) if body.startswith('^') else (False, body))
            pos = end + 1
        else:
            items.append((False, condition[pos]))
            pos += 1
    return items


def items_match(items, text):
    return len(items) == len(text) and all((c in chars) != negated for (negated, chars), c in zip(items, text))


def fits_start(condition, text):
    items = condition_items(condition)
    return len(items) <= len(text) and items_match(items, text[:len(items)])


def fits_end(condition, text):
    items = condition_items(condition)
    return len(items) <= len(text) and items_match(items, text[len(text) - len(items):])


@dataclass
class Affix:
    kind: str
    flag: str
    crossproduct: bool
    strip: str
    add: str
    condition: str
    flags: set

    def __hash__(self):
        return id(self)

    def unapply(self, word):
        """The text this affix was attached to, if the word ends (begins) with it"""
        if self.kind == 'SFX':
            return word[:len(word) - len(self.add)] + self.strip
        return self.strip + word[len(self.add):]

    def fits(self, stem):
        """Whether the condition of the affix holds for the text it is attached to"""
        return fits_end(self.condition, stem) if self.kind == 'SFX' else fits_start(self.condition, stem)

    def key(self):
        return (self.kind, self.flag, self.crossproduct, self.strip, self.add, self.condition,
                tuple(sorted(self.flags)))


def occurrences(literal, start, end, behind, ahead, text):
    """
    Places where the literal text stands, left to right and not overlapping, as (start, end): bound to the
    beginning (to the end) if asked so, with something behind (ahead of) it if asked so
    """
    res = []
    pos = 0
    while pos + len(literal) <= len(text):
        stop = pos + len(literal)
        if text[pos:stop] == literal and (not start or pos == 0) and (not end or stop == len(text)) and \
                (not behind or 0 < pos) and (not ahead or stop < len(text)):
            res.append((pos, stop))
            pos = stop if stop > pos else pos + 1
        else:
            pos += 1
    return res


def without(chars, text):
    return ''.join(c for c in text if c not in chars)


@dataclass
class BreakPattern:
    pattern: str

    def cuts(self, text):
        """Places the text is cut at"""
        start = self.pattern.startswith('^')
        end = self.pattern.endswith('$')
        literal = self.pattern[1 if start else 0:len(self.pattern) - (1 if end else 0)]
        inside = not start and not end
        return occurrences(literal, start, end, inside, inside, text)


@dataclass
class RepPattern:
    pattern: str
    replacement: str

    def spots(self, word):
        """Places of the word the pattern matches at"""
        start = self.pattern.startswith('^')
        end = self.pattern.endswith('$')
        literal = self.pattern[1 if start else 0:len(self.pattern) - (1 if end else 0)]
        return occurrences(literal, start, end, False, False, word)


@dataclass
class CompoundRule:
    text: str

    def __post_init__(self):
        self.items = []
        text = self.text
        pos = 0
        while pos < len(text):
            if '(' in text:
                end = text.index(')', pos)
                flag = text[pos + 1:end]
                pos = end + 1
            else:
                flag = text[pos]
                pos += 1
            mark = ''
            if pos < len(text) and text[pos] in '*?':
                mark = text[pos]
                pos += 1
            self.items.append((flag, mark))

    def fullmatch(self, flag_sets):
        """Whether some choice of one flag per part is in the language of the rule"""
        return self.match(flag_sets, False)

    def partial_match(self, flag_sets):
        """Whether some choice of one flag per part starts something in the language of the rule"""
        return self.match(flag_sets, True)

    def match(self, flag_sets, partial):
        def rest(item, part):
            if partial and part == len(flag_sets):
                return True
            if item == len(self.items):
                return part == len(flag_sets)
            flag, mark = self.items[item]
            here = part < len(flag_sets) and flag in flag_sets[part]
            if mark == '*':
                return rest(item + 1, part) or (here and rest(item, part + 1))
            if mark == '?':
                return rest(item + 1, part) or (here and rest(item + 1, part + 1))
            return here and rest(item + 1, part + 1)
        return rest(0, 0)


@dataclass
class CompoundPattern:
    left: str
    right: str
    replacement: object = None

    def __post_init__(self):
        self.left_stem, _, self.left_flag = self.left.partition('/')
        self.right_stem, _, self.right_flag = self.right.partition('/')
        self.left_no_affix = self.left_stem == '0'
        self.right_no_affix = self.right_stem == '0'
        if self.left_no_affix:
            self.left_stem = ''
        if self.right_no_affix:
            self.right_stem = ''

    def match(self, left, right):
        return (left.stem.endswith(self.left_stem)
                and right.stem.startswith(self.right_stem)
                and not (self.left_no_affix and left.is_base())
                and not (self.right_no_affix and right.is_base())
                and (self.left_flag == '' or self.left_flag in left.flags())
                and (self.right_flag == '' or self.right_flag in right.flags()))


@dataclass
class ConvTable:
    pairs: list

    def __call__(self, word):
        # longer patterns first, among equally long ones in alphabetical order, then in the order of the file
        by_text = sorted(self.pairs, key=lambda pair: pair[0].replace('_', ''))
        by_length = sorted(by_text, key=lambda pair: len(pair[0].replace('_', '')), reverse=True)
        pos = 0
        res = ''
        while pos < len(word):
            found = [(pattern, replacement) for pattern, replacement in by_length if self.stands(pattern, word, pos)]
            if found:
                pattern, replacement = found[0]
                res += replacement.replace('_', ' ')
                pos += len(pattern.replace('_', ''))
            else:
                res += word[pos]
                pos += 1
        return res

    def stands(self, pattern, word, pos):
        """Whether the pattern matches the word at this place"""
        text = pattern.replace('_', '')
        return (word[pos:pos + len(text)] == text
                and (not pattern.startswith('_') or pos == 0)
                and (not pattern.endswith('_') or pos + len(text) == len(word)))


@dataclass
class PhonetRule:
    items: list         # character sets to match, one per character
    lookahead: int      # how many of the last ones are only looked at
    start: bool
    end: bool
    replacement: str

    def consumed(self, word, pos):
        """How many characters the rule matches at pos, None if it does not match"""
        if self.start and pos > 0:
            return None
        if pos + len(self.items) > len(word):
            return None
        if not all(word[pos + i] in chars for i, chars in enumerate(self.items)):
            return None
        size = max(len(self.items) - self.lookahead, 0)
        if self.end and pos + size != len(word):
            return None
        return size


def phonet_rule(search, replacement):
    pos = 0
    while pos < len(search) and (search[pos].isalnum() or search[pos] == '_'):
        pos += 1
    letters, tail = search[:pos], search[pos:]
    items = list(letters)
    if tail.startswith('('):
        optional, _, tail = tail[1:].partition(')')
        items.append(optional)
    dashes = len(tail) - len(tail.lstrip('-'))
    tail = tail[dashes:]
    return PhonetRule(items, dashes, '^' in tail, '$' in tail, replacement)


@dataclass
class PhonetTable:
    table: list

    def rules_for(self, letter):
        return [phonet_rule(search, replacement) for search, replacement in self.table if search[0] == letter]


@dataclass(eq=False)
class Word:
    stem: str
    flags: set
    data: dict
    alt_spellings: list
    captype: CapType

    def __lt__(self, other):
        return self.stem < other.stem


class Dic:
    def __init__(self, words, casing):
        self.words = words
        self.by_stem = defaultdict(list)
        self.by_lower = defaultdict(list)
        for word in words:
            self.by_stem[word.stem].append(word)
            for lower in ([word.stem] if word.captype == CapType.NO else casing.lower(word.stem)):
                self.by_lower[lower].append(word)

    def homonyms(self, stem, *, ignorecase=False):
        return (self.by_lower if ignorecase else self.by_stem).get(stem, [])

    def has_flag(self, stem, flag, *, for_all=False):
        homonyms = self.homonyms(stem)
        if not homonyms:
            return False
        return all(flag in word.flags for word in homonyms) if for_all else any(flag in word.flags for word in homonyms)


@dataclass
class AffixForm:
    text: str
    stem: str
    prefix: object = None
    suffix: object = None
    prefix2: object = None
    suffix2: object = None
    in_dictionary: object = None

    def replace(self, **changes):
        return replace(self, **changes)

    def has_affixes(self):
        return self.suffix is not None or self.prefix is not None

    def is_base(self):
        return self.suffix is None and self.prefix is None

    def flags(self):
        res = set() if self.in_dictionary is None else set(self.in_dictionary.flags)
        for affix in (self.prefix, self.suffix):
            if affix is not None:
                res = res | affix.flags
        return res

    def all_affixes(self):
        return [affix for affix in (self.prefix2, self.prefix, self.suffix, self.suffix2) if affix is not None]


@dataclass
class CompoundForm:
    parts: list


DEFAULTS = {
    'SET': 'Windows-1252', 'FLAG': 'short', 'LANG': None, 'WORDCHARS': None, 'IGNORE': None, 'CHECKSHARPS': False,
    'FORBIDDENWORD': None, 'KEEPCASE': None, 'NOSUGGEST': None, 'KEY': 'qwertyuiop|asdfghjkl|zxcvbnm', 'TRY': '',
    'NOSPLITSUGS': False, 'PHONE': None, 'MAXCPDSUGS': 3, 'MAXNGRAMSUGS': 4, 'MAXDIFF': -1, 'ONLYMAXDIFF': False,
    'NEEDAFFIX': None, 'CIRCUMFIX': None, 'COMPLEXPREFIXES': False, 'FULLSTRIP': False,
    'COMPOUNDMIN': 3, 'COMPOUNDWORDMAX': None, 'COMPOUNDFLAG': None, 'COMPOUNDBEGIN': None,
    'COMPOUNDMIDDLE': None, 'COMPOUNDEND': None, 'ONLYINCOMPOUND': None, 'COMPOUNDPERMITFLAG': None,
    'COMPOUNDFORBIDFLAG': None, 'FORCEUCASE': None, 'CHECKCOMPOUNDCASE': False, 'CHECKCOMPOUNDDUP': False,
    'CHECKCOMPOUNDREP': False, 'CHECKCOMPOUNDTRIPLE': False, 'SIMPLIFIEDTRIPLE': False,
    'COMPOUNDSYLLABLE': None, 'COMPOUNDMORESUFFIXES': False, 'COMPOUNDROOT': None, 'ICONV': None, 'OCONV': None,
    'WARN': None, 'FORBIDWARN': False, 'SYLLABLENUM': None, 'SUBSTANDARD': None,
}
TABLES = {'REP': list, 'MAP': list, 'PFX': dict, 'SFX': dict, 'COMPOUNDRULE': list, 'CHECKCOMPOUNDPATTERN': list,
          'AF': dict, 'AM': dict, 'BREAK': list}


def casing(sharps, language):
    from spec.casing import Casing, GermanCasing, TurkicCasing
    if sharps:
        return GermanCasing()
    if language in ('tr', 'tr_TR', 'az', 'crh'):
        return TurkicCasing()
    return Casing()


class Aff:
    def __init__(self, **values):
        for name, default in DEFAULTS.items():
            setattr(self, name, default)
        for name, cls in TABLES.items():
            setattr(self, name, cls())
        self.BREAK = [BreakPattern('-'), BreakPattern('^-'), BreakPattern('-$')]
        for name, value in values.items():
            setattr(self, name, value)
        self.casing = casing(self.CHECKSHARPS, self.LANG)

    def suffixes_for(self, word):
        """All suffixes the word ends with: shorter first, then in the order of the file"""
        return self._ending(self.SFX, lambda affix: word.endswith(affix.add))

    def prefixes_for(self, word):
        return self._ending(self.PFX, lambda affix: word.startswith(affix.add))

    def _ending(self, tables, good):
        return sorted((affix for table in tables.values() for affix in table if good(affix)),
                      key=lambda affix: len(affix.add))
