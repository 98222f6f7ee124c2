"""Random dictionaries (affix file, word list) and texts to ask about, for a given set of features."""

import random

# flags with a special meaning; other capital letters are affix flags
SPECIAL = {
    'NEEDAFFIX': 'N', 'CIRCUMFIX': 'X', 'ONLYINCOMPOUND': 'O', 'FORBIDDENWORD': 'F', 'NOSUGGEST': 'S', 'KEEPCASE': 'K',
    'COMPOUNDFLAG': 'C', 'COMPOUNDBEGIN': 'B', 'COMPOUNDMIDDLE': 'M', 'COMPOUNDEND': 'E', 'COMPOUNDPERMITFLAG': 'P',
    'COMPOUNDFORBIDFLAG': 'Q', 'FORCEUCASE': 'U',
}
SUFFIX_FLAGS = 'aeg'
PREFIX_FLAGS = 'pqr'
RULE_FLAGS = 'xyz'


class Dictionary:
    def __init__(self, aff, dic, words, tags):
        self.aff = aff
        self.dic = dic
        self.words = words
        self.tags = tags


class Generator:
    def __init__(self, seed, features):
        self.rng = random.Random(seed)
        self.features = dict(features)
        self.lines = []
        self.affixes = {}
        self.seps = ['-']
        self.tags = set()

    # helpers

    def chance(self, probability):
        return self.rng.random() < probability

    def has(self, feature):
        """Whether the feature (given with its probability) is used in this dictionary"""
        probability = self.features.get(feature, 0)
        if probability and self.chance(probability):
            self.tags.add(feature)
            return True
        return False

    def pick(self, items):
        return self.rng.choice(list(items))

    def some(self, items, most):
        items = list(items)
        return self.rng.sample(items, self.rng.randint(0, min(most, len(items))))

    def text(self, low, high, alphabet=None):
        return ''.join(self.pick(alphabet or self.alphabet) for _ in range(self.rng.randint(low, high)))

    # flags

    def flag(self, letter):
        if self.flag_format == 'long':
            return letter + '1'
        if self.flag_format == 'num':
            return str((ord(letter) * 7) % 1200 + 1)
        if self.flag_format == 'UTF-8' and letter.islower():
            return {'a': 'ä', 'p': 'π'}.get(letter, letter)
        return letter

    def flags(self, letters):
        letters = sorted(set(letters))
        self.rng.shuffle(letters)
        return (',' if self.flag_format == 'num' else '').join(self.flag(letter) for letter in letters)

    def flag_text(self, letters):
        """As written in the file, maybe as alias"""
        if self.aliases is not None and letters:
            key = frozenset(letters)
            if key not in self.aliases:
                self.aliases[key] = len(self.aliases) + 1
            return str(self.aliases[key])
        return self.flags(letters)

    # parts of the file

    def generate(self):
        rng = self.rng
        for probability, others in self.features.get('sometimes', ()):
            if self.chance(probability):
                self.features.update(others)
        self.alphabet = self.pick(['ab', 'abc', 'abc', 'abcd'])
        self.encoding = 'UTF-8' if self.features.get('unicode') or self.chance(0.5) else 'ISO8859-1'
        self.flag_format = 'short'
        self.aliases = None
        head = [f'SET {self.encoding}']
        if self.has('flagformat'):
            self.flag_format = self.pick(['long', 'num', 'UTF-8'] if self.encoding == 'UTF-8' else ['long', 'num'])
            head.append(f'FLAG {self.flag_format}')
        if self.has('aliases'):
            self.aliases = {}
        if self.has('turkic'):
            head.append('LANG ' + self.pick(['tr', 'tr_TR', 'az', 'crh']))
            self.alphabet += 'iı'
        if self.has('signs'):
            # characters with a meaning in regular expressions
            self.alphabet += self.pick('+*?().|\\{}$')
        if self.has('sharps'):
            head.append('CHECKSHARPS')
            self.alphabet = 'as' + self.pick(['', 'b'])
            if self.encoding != 'UTF-8':
                self.encoding = 'UTF-8'
                head[0] = 'SET UTF-8'
        self.sharps = 'sharps' in self.tags
        self.ignored = ''
        if self.has('ignore'):
            self.ignored = self.pick(['z', "'", "z'"])
            head.append(f'IGNORE {self.ignored}')

        self.special = [name for name in SPECIAL if self.has(name)]
        for name in self.special:
            directive = name
            if name == 'NEEDAFFIX' and self.chance(0.1):
                directive = 'PSEUDOROOT'
            if name == 'COMPOUNDEND' and self.chance(0.1):
                directive = 'COMPOUNDLAST'
            self.lines.append(f'{directive} {self.flag(SPECIAL[name])}')
        for name in ('COMPLEXPREFIXES', 'NOSPLITSUGS', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDTRIPLE',
                     'CHECKCOMPOUNDCASE', 'SIMPLIFIEDTRIPLE', 'ONLYMAXDIFF', 'FULLSTRIP'):
            if self.has(name):
                self.lines.append(name)
        if self.has('COMPOUNDMIN'):
            self.lines.append(f'COMPOUNDMIN {rng.randint(1, 3)}')
        if self.has('COMPOUNDWORDMAX'):
            self.lines.append(f'COMPOUNDWORDMAX {rng.randint(2, 4)}')
        if self.has('noversplit'):
            self.lines.append('BREAK 0')
            self.seps = []
        elif self.has('BREAK'):
            self.break_table()
        self.key = 'qwertyuiop|asdfghjkl|zxcvbnm'
        if self.has('KEY'):
            self.key = self.pick(['ab|cd', 'abc', 'a|b', 'acb|a', 'dcba|bd|', 'aa', 'aabb', 'baac|c', 'a||b', '|ab', 'Aab', 'aBc'])
            self.lines.append(f'KEY {self.key}')
        self.try_chars = ''
        if self.has('TRY'):
            letters = self.alphabet + "b-'a"
            if self.chance(0.3):
                letters = self.pick(['Ab', 'AB-', 'bA', '-b', "A'", 'cC'])
            self.try_chars = ''.join(self.some(letters, 4))
            if self.try_chars:
                self.lines.append(f'TRY {self.try_chars}')
        self.rep = []
        if self.has('REP'):
            self.rep_table()
        self.map = []
        if self.has('MAP'):
            self.map_table()
        for name, values in (('MAXCPDSUGS', [0, 1, 2, 3]), ('MAXNGRAMSUGS', [1, 2, 3, 10]), ('MAXDIFF', range(0, 11))):
            if self.has(name):
                self.lines.append(f'{name} {self.pick(values)}')
        if self.has('no_ngram'):
            self.lines.append('MAXNGRAMSUGS 0')
        self.conv = {}
        for name in ('ICONV', 'OCONV'):
            if self.has(name):
                self.conv_table(name)
        if self.has('PHONE'):
            self.phone_table()
        self.rule_texts = []
        if self.has('COMPOUNDRULE'):
            self.rule_table()
        if self.has('CHECKCOMPOUNDPATTERN'):
            self.pattern_table()
        tables = []
        if self.has('suffix'):
            tables.append(('SFX', SUFFIX_FLAGS))
        if self.has('prefix'):
            tables.append(('PFX', PREFIX_FLAGS))
        for kind, flags in tables:
            for letter in flags[:rng.randint(1, 3)]:
                self.affix_table(kind, letter)

        entries = self.entries()

        rng.shuffle(self.lines)
        body = []
        for line in self.lines:
            body.extend(line if isinstance(line, list) else [line])
        if self.aliases is not None:
            head.append(f'AF {len(self.aliases)}')
            for letters in self.aliases:
                head.append('AF ' + self.flags(letters))
        aff = '\n'.join(head + body) + '\n'
        dic = '\n'.join([str(len(entries))] + [entry for entry in entries]) + '\n'
        words = self.queries()
        return Dictionary(aff.encode(self.encoding, errors='replace'), dic.encode(self.encoding, errors='replace'),
                          words, self.tags)

    def break_table(self):
        rows = []
        self.seps = []
        for _ in range(self.rng.randint(1, 3)):
            sep = self.pick(['-', '-', '--', '.', '_', 'a', '+-', '*', 'n-', '-^', '$-', 'a^b'])
            kind = self.pick(['', '', '', '^', '$', '^$'])
            rows.append((sep if not kind else '^' + sep if kind == '^' else sep + '$' if kind == '$' else f'^{sep}$'))
            self.seps.append(sep)
        self.lines.append([f'BREAK {len(rows)}'] + [f'BREAK {row}' for row in rows])

    def rep_table(self):
        for _ in range(self.rng.randint(1, 3)):
            fro = self.text(1, 2)
            if self.chance(0.15):
                fro = self.pick(['.', 'a*', '[ab]', '(a'])
            if self.chance(0.2):
                fro = '^' + fro
            if self.chance(0.2):
                fro += '$'
            to = self.pick([self.text(1, 2), self.text(1, 1), '_', self.text(1, 1) + '_' + self.text(1, 1), '_' + self.text(1, 1)])
            self.rep.append((fro, to))
        self.lines.append([f'REP {len(self.rep)}'] + [f'REP {fro} {to}' for fro, to in self.rep])

    def map_table(self):
        letters = [c for c in self.alphabet if c not in '()']
        for _ in range(self.rng.randint(1, 2)):
            options = []
            for _ in range(self.rng.randint(2, 3)):
                option = self.text(1, 1, letters) if self.chance(0.7) else self.text(2, 2, letters)
                if option not in options:
                    options.append(option)
            self.map.append(options)
        self.lines.append([f'MAP {len(self.map)}'] + [
            'MAP ' + ''.join(o if len(o) == 1 else f'({o})' for o in options) for options in self.map])

    def conv_table(self, name):
        rows = []
        for _ in range(self.rng.randint(1, 4)):
            fro = self.text(1, 3, self.alphabet + 'v') if self.chance(0.8) else self.pick(['.', 'a+', '[a]', '\\a'])
            if self.chance(0.2):
                fro = '_' + fro
            if self.chance(0.2):
                fro += '_'
            to = self.text(1, 2, self.alphabet + 'v') if self.chance(0.85) else '_'
            rows.append((fro, to))
        self.conv[name] = rows
        self.lines.append([f'{name} {len(rows)}'] + [f'{name} {fro} {to}' for fro, to in rows])

    def phone_table(self):
        rows = []
        upper = ''.join(filter(str.isalpha, self.alphabet)).upper()
        for _ in range(self.rng.randint(2, 6)):
            search = self.text(1, 3, upper)
            if self.chance(0.3):
                search += '(' + self.text(1, 2, upper) + ')'
            if self.chance(0.3):
                search += '-' * self.rng.randint(1, 2)
            search += self.pick(['', '', '', '^', '$', '^$', '<'])
            rows.append((search, self.pick(['_', self.text(1, 1, upper), self.text(1, 2, 'XKY')])))
        self.lines.append([f'PHONE {len(rows)}'] + [f'PHONE {fro} {to}' for fro, to in rows])

    def rule_table(self):
        rules = []
        for _ in range(self.rng.randint(1, 3)):
            rule = ''
            for _ in range(self.rng.randint(1, 4)):
                letter = self.flag(self.pick(RULE_FLAGS))
                rule += letter if len(letter) == 1 else f'({letter})'
                rule += self.pick(['', '', '*', '?'])
            rules.append(rule)
        self.lines.append([f'COMPOUNDRULE {len(rules)}'] + [f'COMPOUNDRULE {rule}' for rule in rules])

    def pattern_table(self):
        rows = []
        for _ in range(self.rng.randint(1, 2)):
            sides = []
            for _ in range(2):
                side = self.pick([self.text(1, 1), self.text(1, 2), '0'])
                if self.chance(0.3):
                    side += '/' + self.flag(self.pick('CBE'))
                sides.append(side)
            rows.append(' '.join(sides))
        self.lines.append([f'CHECKCOMPOUNDPATTERN {len(rows)}'] + [f'CHECKCOMPOUNDPATTERN {row}' for row in rows])

    def affix_table(self, kind, letter):
        rows = []
        cross = self.pick(['Y', 'Y', 'N'])
        for _ in range(self.rng.randint(1, 2)):
            strip = self.text(1, 1) if self.chance(0.35) else ''
            if self.chance(0.04):
                strip = self.text(2, 2)
            add = self.text(1, 2) if self.chance(0.9) else ''
            if self.chance(0.05):
                add += self.pick('.*+')
            condition = self.pick(['.', '.', self.text(1, 1), '[^%s]' % self.text(1, 1), '[%s]' % self.text(1, 2),
                                   '[^%s]%s' % (self.text(1, 1), self.text(1, 1)), '-' + self.text(1, 1), '[-%s]' % self.text(1, 1)])
            if strip and self.chance(0.7):
                condition = strip if kind == 'PFX' else strip
                if self.chance(0.3):
                    condition = '[^%s]' % self.text(1, 1) + strip if kind == 'SFX' else strip + '[^%s]' % self.text(1, 1)
            letters = self.some([SPECIAL[name] for name in self.special if name in (
                'NEEDAFFIX', 'CIRCUMFIX', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'COMPOUNDFLAG',
                'COMPOUNDBEGIN', 'COMPOUNDMIDDLE', 'COMPOUNDEND', 'FORBIDDENWORD', 'KEEPCASE')], 2)
            if self.chance(0.4):
                letters += self.some(SUFFIX_FLAGS if kind == 'SFX' or self.chance(0.3) else PREFIX_FLAGS, 2)
            rows.append((strip, add, condition, letters))
            self.affixes.setdefault(letter, []).append((kind, strip, add, cross, letters))
        text = []
        for strip, add, condition, letters in rows:
            shown = add or '0'
            if self.ignored and add and self.chance(0.3):
                shown = add + self.ignored[0]
            flags = '/' + self.flag_text(letters) if letters else ''
            text.append(f'{kind} {self.flag(letter)} {strip or 0} {shown}{flags} {condition}')
        self.lines.append([f'{kind} {self.flag(letter)} {cross} {len(rows)}'] + text)

    def entries(self):
        rng = self.rng
        self.stems = []
        entries = []
        # few flags always on the stems, so that things are allowed
        useful = [letter for letter in self.affixes]
        useful += [SPECIAL[name] for name in self.special if name.startswith('COMPOUND') and name not in (
            'COMPOUNDPERMITFLAG',)] * 2
        if 'COMPOUNDRULE' in self.tags:
            useful += list(RULE_FLAGS) * 2
        rare = [SPECIAL[name] for name in self.special if not name.startswith('COMPOUND')]
        count = rng.randint(*self.features.get('words', (3, 8)))
        for _ in range(count):
            stem = self.text(1, 3) if not self.features.get('long') else self.text(3, 7)
            if self.stems and self.chance(0.2):
                stem = self.pick(self.stems)[0]
                if self.features.get('case') and self.chance(0.6):
                    stem = self.recase(stem)
            elif self.has('case') and self.chance(0.5):
                stem = self.recase(stem)
            if self.sharps and self.chance(0.4):
                pos = rng.randint(0, len(stem))
                stem = stem[:pos] + 'ß' + stem[pos:]
            if self.chance(self.features.get('spaced', 0)):
                pos = rng.randint(1, max(1, len(stem) - 1))
                stem = stem[:pos] + self.pick(' -') + stem[pos:]
                stem = stem.strip()
            if self.chance(self.features.get('digits', 0)):
                stem += self.pick('12')
            letters = []
            for letter in useful:
                if self.chance(0.6):
                    letters.append(letter)
            for letter in rare:
                if self.chance(0.25):
                    letters.append(letter)
            letters = sorted(set(letters))
            shown = stem
            if self.ignored and self.chance(0.3):
                pos = rng.randint(0, len(stem))
                shown = stem[:pos] + self.ignored[0] + stem[pos:]
            if shown.startswith('-') and self.ignored:
                shown = stem
            entry = shown + ('/' + self.flag_text(letters) if letters else '')
            if self.chance(self.features.get('ph', 0)):
                spelling = self.text(2, 4)
                entry += ' ph:' + self.pick([spelling, spelling, spelling + '*', spelling + '->' + self.text(2, 3)])
                self.tags.add('ph')
            entries.append(entry)
            self.stems.append((stem, letters))
        return entries

    # queries

    def recase(self, text):
        way = self.rng.randint(0, 4)
        if way == 0:
            return text.capitalize()
        if way == 1:
            return text.upper()
        if way == 2:
            return text[:1].upper() + text[1:]
        if way == 3:
            return text.lower()
        return ''.join(c.upper() if self.chance(0.5) else c for c in text)

    def affixed(self, stem, letters):
        """A form made of the stem; mostly following the rules"""
        for _ in range(self.rng.choice([1, 1, 2, 2, 3])):
            possible = [letter for letter in letters if letter in self.affixes]
            if not possible or self.chance(0.15):
                possible = list(self.affixes)
            if not possible:
                return stem
            kind, strip, add, _, more = self.pick(self.affixes[self.pick(possible)])
            if kind == 'SFX':
                if strip and stem.endswith(strip):
                    stem = stem[:-len(strip)]
                elif strip:
                    continue
                stem += add
            else:
                if strip and stem.startswith(strip):
                    stem = stem[len(strip):]
                elif strip:
                    continue
                stem = add + stem
            letters = [*letters, *more] if self.chance(0.7) else more
        return stem

    def part(self):
        stem, letters = self.pick(self.stems)
        return self.affixed(stem, letters) if self.affixes and self.chance(0.45) else stem

    def base_query(self):
        rng = self.rng
        text = self.part()
        if self.features.get('compound'):
            way = rng.random()
            if way < 0.75:
                for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
                    other = self.part()
                    if 'SIMPLIFIEDTRIPLE' in self.tags and self.chance(0.5) and text and other and len(text) > 1 \
                            and text[-1] == text[-2] == other[0]:
                        text = text[:-1]
                    text += other
        if self.features.get('join') and self.seps and self.chance(self.features['join']):
            for _ in range(rng.choice([1, 1, 2, 3])):
                text = text + self.pick(self.seps) + (self.part() if self.chance(0.85) else '')
            if self.chance(0.2):
                text = self.pick(self.seps) + text
        return text

    def mutate(self, text):
        way = self.rng.randint(0, 7)
        alphabet = self.alphabet + (self.try_chars or '')
        pos = self.rng.randint(0, len(text))
        if way == 0 or not text:
            return text[:pos] + self.pick(alphabet) + text[pos:]
        pos = self.rng.randint(0, len(text) - 1)
        if way == 1:
            return text[:pos] + text[pos + 1:]
        if way == 2:
            return text[:pos] + self.pick(alphabet) + text[pos + 1:]
        if way == 3:
            other = self.rng.randint(0, len(text) - 1)
            chars = list(text)
            chars[pos], chars[other] = chars[other], chars[pos]
            return ''.join(chars)
        if way == 4:
            other = self.rng.randint(0, len(text))
            rest = text[:pos] + text[pos + 1:]
            return rest[:other] + text[pos] + rest[other:]
        if way == 5:
            return text[:pos] + text[pos:pos + 2] + text[pos:]
        if way == 6:
            if self.rep and self.chance(0.5):
                fro, to = self.pick(self.rep)
                return text.replace(to.replace('_', ' '), fro.strip('^$'), 1)
            if self.map and self.chance(0.5):
                options = self.pick(self.map)
                return text.replace(self.pick(options), self.pick(options), 1)
            return text[:pos] + text[pos:].replace(' ', '', 1)
        return text.replace('-', '', 1)

    def queries(self):
        res = []
        count = self.features.get('queries', 25)
        for _ in range(count):
            text = self.base_query()
            if self.chance(self.features.get('mutate', 0.1)):
                text = self.mutate(text)
                if self.chance(0.2):
                    text = self.mutate(text)
            if self.features.get('recase') and self.chance(self.features['recase']):
                text = self.recase(text)
            if self.sharps and self.chance(0.3):
                text = text.replace('ß', 'SS' if text.isupper() or self.chance(0.3) else 'ss')
            if self.ignored and self.chance(0.3):
                pos = self.rng.randint(0, len(text))
                text = text[:pos] + self.ignored[0] + text[pos:]
            if 'ICONV' in self.conv and self.chance(0.6):
                fro, to = self.pick(self.conv['ICONV'])
                to = to.replace('_', ' ')
                if to in text:
                    text = text.replace(to, fro.replace('_', ''), 1)
                elif self.chance(0.3):
                    text = fro.replace('_', '') + text
            if self.chance(self.features.get('numbers', 0)):
                text = self.pick(['1', '12', '1.5', '1.', '.5', '1.2.3', '1-2', '12-a', '3.a', '1,5', '١٢', '1.5-' + text, '²'])
            if len(text) <= self.features.get('maxlen', 14):
                res.append(text)
        if self.seps and self.chance(self.features.get('many', 0)):
            # about as many cuts as are allowed
            res.append(self.pick(self.seps).join([self.part()] * self.rng.choice([11, 11, 12])))
        if self.chance(self.features.get('odd', 0)):
            res.extend(self.rng.sample(ODD, 6))
        return list(dict.fromkeys(res))


ODD = ['', ' ', '-', '--', '.', '1', 'İ', 'İa', 'ı', 'ß', 'ẞ', 'SS', 'ǆ', 'ǅ', 'a b', 'A B', 'aB c', 'ﬁ', 'ŉa', '\ud800', 'á',
       '中文', '\t', 'a\nb', 'ΑΣ', "a'", '-a', 'a-', 'a--b', 'ab-', 'A-B', 'aB-', '1.', '1a', 'a1', 'İİ', 'i̇', '€',
       'a ', ' a', 'aaaaaaaa', 'abABabAB', '.a', 'a.', '()', '[', '*', '\\', '^a', 'a$', 'aA', 'Aa', 'AA', 'aAa']
