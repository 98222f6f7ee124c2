"""Random affix files and word lists for the properties about reading."""

import random

NUMBERS = ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX', 'COMPOUNDMIN']
FLAGS = ['NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'NEEDAFFIX', 'FORBIDDENWORD', 'WARN', 'COMPOUNDFLAG', 'COMPOUNDBEGIN',
         'COMPOUNDMIDDLE', 'COMPOUNDEND', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'FORCEUCASE',
         'SUBSTANDARD', 'SYLLABLENUM', 'COMPOUNDROOT', 'PSEUDOROOT', 'COMPOUNDLAST']
SWITCHES = ['COMPLEXPREFIXES', 'FULLSTRIP', 'NOSPLITSUGS', 'CHECKSHARPS', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP',
            'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'ONLYMAXDIFF', 'COMPOUNDMORESUFFIXES']
NOISE = ['# comment', '#', '# SFX A Y 1', 'UNKNOWN x y', 'Sfx A Y 1', 'HOME http://x', 'NAME some name', 'set UTF-8', '1 2',
         'VERSION 1.0', '-', 'ß ß', 'SFX1 a']
LETTERS = 'abcdeß'
WIDE = 'éèžşіиσ中'


class Files:
    def __init__(self, seed, what):
        self.rng = random.Random(seed)
        self.what = what
        self.settled = False

    def chance(self, probability):
        return self.rng.random() < probability

    def pick(self, items):
        return self.rng.choice(list(items))

    def text(self, low, high, letters=None):
        return ''.join(self.pick(letters or self.letters) for _ in range(self.rng.randint(low, high)))

    def flag(self):
        if self.flag_format == 'long':
            return self.pick('ABab12ä') + self.pick('XYxy9')
        if self.flag_format == 'num':
            return str(self.rng.randint(1, 40))
        if self.flag_format == 'UTF-8':
            return self.pick('ABCabcä中1')
        return self.pick('ABCDEabcde12')

    def flags(self, low=0, high=4):
        if self.aliases and self.chance(0.7):
            return str(self.rng.randint(1, self.aliases))
        flags = [self.flag() for _ in range(self.rng.randint(low, high))]
        if self.aliases and self.flag_format in ('short', 'UTF-8'):
            flags = ['A', *flags]
        if self.aliases and self.flag_format == 'num':
            flags = ['1', '2', *flags]
        if self.aliases and self.flag_format == 'long':
            flags = ['AX', *flags]
        return (',' if self.flag_format == 'num' else '').join(flags)

    def space(self):
        return self.pick([' ', ' ', ' ', '  ', '\t', ' \t'])

    def row(self, *fields):
        text = self.space().join(fields)
        if self.chance(0.1):
            text += ' ' + self.pick(['# comment', 'rest'])
        return text

    def table(self, name, rows, head=()):
        """head row and the others"""
        return [self.row(name, *head, str(len(rows)))] + [self.row(name, *row) for row in rows]

    def affixes(self, kind):
        flag = self.flag()
        rows = []
        for _ in range(self.pick([0, 1, 1, 2, 2, 3, 3])):
            add = self.pick(['0', self.text(1, 3), self.text(1, 2), self.text(1, 1) + 'z' + self.text(1, 1)])
            flags = self.flags(1, 3)
            if self.chance(0.4):
                add += '/' + flags
            row = [flag, self.pick(['0', '0', self.text(1, 2)]), add]
            if self.chance(0.85):
                row.append(self.pick(['.', self.text(1, 2), '[^a]b', '[ab]', '[a-b]', 'a-b']))
                if self.chance(0.2):
                    row.append(self.pick(['is:plural', 'ds:x']))
            rows.append(row)
        return [self.space().join([kind, flag, self.pick('YN'), str(len(rows))])] + [
            self.space().join([kind, *row]) for row in rows]

    def directive(self):
        kind = self.rng.randint(0, 16)
        text = self.text
        if kind == 0:
            return [self.row(self.pick(NUMBERS), str(self.rng.randint(0, 12)))]
        if kind in (1, 2):
            return [self.row(self.pick(FLAGS), self.flag())]
        if kind == 3:
            return [self.pick(SWITCHES)]
        if kind == 4:
            return [self.row(self.pick(['KEY', 'TRY', 'WORDCHARS', 'LANG']), self.pick([text(1, 5), 'tr', 'de_DE', 'ab|cd']))]
        if kind == 5:
            return self.table('BREAK', [[self.pick(['-', '^-', '-$', '--', 'n-', '.'])]
                                        for _ in range(self.rng.randint(0, 3))])
        if kind == 6:
            return self.table('COMPOUNDRULE', [[''.join(
                (f'({flag})' if self.flag_format in ('long', 'num') else flag) + self.pick(['', '*', '?'])
                for flag in [self.flag(), self.flag()])] for _ in range(self.rng.randint(0, 3))])
        if kind == 7:
            return self.table(self.pick(['ICONV', 'OCONV']), [[self.pick(['', '_']) + text(1, 3), self.pick(['_', text(1, 2)])]
                                                              for _ in range(self.rng.randint(0, 3))])
        if kind == 8:
            return self.table('REP', [[self.pick(['', '^']) + text(1, 3) + self.pick(['', '$']), text(1, 2)]
                                      for _ in range(self.rng.randint(1, 4))])
        if kind == 9:
            return self.table('MAP', [[''.join(self.pick([text(1, 1), text(1, 1), '(' + text(2, 3) + ')'])
                                              for _ in range(self.rng.randint(1, 4)))]
                                      for _ in range(self.rng.randint(0, 3))])
        if kind in (10, 11, 12):
            return self.affixes(self.pick(['SFX', 'PFX']))
        if kind == 13:
            return self.table('CHECKCOMPOUNDPATTERN', [[self.pick(['0', text(1, 2), text(1, 1) + '/' + self.flag()])
                                                        for _ in range(2)] + self.pick([[], [], [text(1, 2)]])
                                                       for _ in range(self.rng.randint(0, 3))])
        if kind == 14:
            self.am = self.rng.randint(0, 3)
            return self.table('AM', [[self.pick(['po:noun', 'st:a', 'ph:abc', 'is:x', 'is:x', '1', '2']) for _ in range(self.rng.randint(1, 2))]
                                     for _ in range(self.am)])
        if kind == 15:
            return self.table('PHONE', [[self.pick(['A', 'AB', 'A(BC)', 'AB-', 'A^', 'B$']), self.pick(['_', 'X', 'YZ'])]
                                        for _ in range(self.rng.randint(0, 3))])
        return [self.row('COMPOUNDSYLLABLE', str(self.rng.randint(1, 5)), text(1, 4))]

    def settings(self):
        """Directives changing how the rest is read"""
        found = []
        if self.chance(0.5):
            fmt = self.pick(['long', 'num', 'UTF-8'] if self.encoding == 'UTF-8' else ['long', 'num'])
            found.append(([f'FLAG {fmt}'], 'flag', fmt))
        if self.chance(0.3):
            found.append((None, 'alias', None))
        if self.chance(0.3):
            found.append(([self.row('IGNORE', self.pick(['z', 'za', 'bz']))], 'ignore', None))
        return found

    def generate(self):
        rng = self.rng
        self.encoding = self.pick(['UTF-8', 'UTF-8', 'ISO8859-1', 'ISO8859-2', 'KOI8-R', 'cp1251', None])
        self.flag_format = 'short'
        self.aliases = 0
        self.am = 0
        self.letters = LETTERS.replace('ß', '')
        wide = ''.join(c for c in LETTERS + WIDE if encodable(c, self.encoding or 'Windows-1252'))
        blocks = []
        settings = self.settings()
        slots = sorted(rng.sample(range(0, 14), len(settings)))
        set_at = self.pick([0, 0, 1, 3, 6]) if self.encoding else None
        for i in range(0, 14):
            if i == set_at:
                blocks.append([f'SET {self.encoding}'])
                self.letters = wide
            if set_at is None:
                self.letters = wide
            for slot, (lines, kind, value) in zip(slots, settings):
                if slot == i:
                    if kind == 'flag':
                        self.flag_format = value
                        if value == 'UTF-8' and set_at is not None and i < set_at:
                            self.letters = wide
                    if kind == 'alias':
                        rows = [[self.flags(1, 3)] for _ in range(rng.randint(1, 3))]
                        lines = self.table('AF', rows)
                        self.aliases = len(rows)
                    blocks.append(lines)
            if self.chance(0.7):
                blocks.append(self.directive())
            if self.chance(0.3):
                blocks.append([self.pick(NOISE) if encodable('ß', self.encoding or 'Windows-1252') else '# comment'])
        aff = [line for block in blocks for line in block]
        dic = self.word_list()
        return aff, dic

    def data(self):
        fields = []
        for _ in range(self.rng.randint(1, 3)):
            fields.append(self.pick(['po:noun', 'st:' + self.text(1, 3), 'ph:' + self.text(1, 4), 'ph:' + self.text(2, 4) + '*',
                                     'ph:' + self.text(1, 3) + '->' + self.text(1, 3), 'al:' + self.text(1, 2), 'xx:',
                                     'is:a:b', 'word', 'ab1:x',
                                     str(self.rng.randint(1, self.am)) if self.am else 'po:verb']))
        return fields

    def word_list(self):
        lines = []
        count = self.rng.randint(2, 8)
        for _ in range(count):
            stem = self.text(1, 5, self.letters + self.letters.upper() + 'z')
            way = self.rng.randint(0, 11)
            if way == 0:
                stem = stem + '\\/' + self.text(1, 2)
            elif way == 1:
                stem = stem + ' ' + self.text(1, 3)
            elif way == 2:
                stem = '/' + stem
            elif way == 3:
                stem = self.text(1, 3).upper()
            elif way == 4:
                stem = self.pick(['12', '12a', '1', '3 a', "o'clock", 'a-b', 'İa', 'x:y', 'a:bc', 'aß']) \
                    if encodable('İß', self.encoding or 'Windows-1252') else '12a'
            elif way == 5:
                stem = stem.capitalize()
            line = stem
            if self.chance(0.6):
                line += '/' + self.flags(0, 4)
            if self.chance(0.1):
                line += '/' + self.flag()
            if self.chance(0.4):
                fields = self.data()
                # without a tab the data begins with a tag
                tagged = ':' in fields[0][2:3]
                line += self.pick([' ', '\t', '\t', '  '] if tagged else ['\t']) + self.space().join(fields)
            lines.append(line)
        if self.chance(0.3):
            lines.insert(self.rng.randint(0, len(lines)), self.pick(lines))
        head = [self.pick([str(count), str(count) + ' x', str(count) + '\t'])] if self.chance(0.85) else []
        return head + lines

    def layout(self, lines, encoding, bom=None, ending=None, noise=True):
        """Bytes of the file"""
        out = []
        for i, line in enumerate(lines):
            if noise and i > 0 and self.chance(0.15):
                out.append(self.pick(['', '  ', '\t']))
            if noise and self.chance(0.15):
                line = self.pick([' ', '\t']) + line if not self.what == 'dic' else line
            if noise and self.chance(0.15):
                line = line + self.pick([' ', '\t', '  '])
            out.append(line)
        ending = ending or self.pick(['\n', '\n', '\r\n'])
        text = ending.join(out) + ('' if self.chance(0.2) else ending)
        data = text.encode(encoding, errors='replace')
        return (b'\xef\xbb\xbf' if bom else b'') + data


def encodable(text, encoding):
    try:
        text.encode(encoding)
        return True
    except UnicodeEncodeError:
        return False
