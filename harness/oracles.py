"""Deciding, on concrete dictionaries and words, whether the real code does what the specification says.

A case is made from (property, profile, seed). judge(case) yields violations as dicts with everything needed to repeat
them."""

import os
import pickle
import random
import subprocess
import sys

from harness import canon, real
from harness.files import Files
from harness.gen import Generator
from harness.profiles import PROFILES
from spec import reading
from spec import suggest as spec_suggest

TIME_REAL = 20
TIME_SPEC = 30


class Skip(Exception):
    pass


def load_spec(aff, dic):
    try:
        with real.Limit(TIME_SPEC):
            return reading.Dictionary(aff, dic)
    except Exception as error:  # what the specification does not speak about
        raise Skip(f'specification does not cover the files: {error!r}') from error
    except real.Timeout as error:
        raise Skip('time') from error


def load_real(aff, dic, **kwargs):
    """Dictionary, or the exception as a text"""
    try:
        with real.Limit(TIME_REAL):
            return real.outcome(lambda: real.load(aff, dic, **kwargs))
    except real.Timeout as error:
        raise Skip('time') from error


def ask_real(dictionary, kind, word, limit=TIME_REAL):
    if isinstance(dictionary, str):
        return dictionary
    try:
        with real.Limit(limit):
            if kind == 'lookup':
                return real.outcome(lambda: dictionary.lookup(word))
            return real.outcome(lambda: list(dictionary.suggest(word)))
    except real.Timeout as error:
        raise Skip('time') from error


def ask_spec(dictionary, kind, word):
    try:
        with real.Limit(TIME_SPEC):
            if kind == 'lookup':
                return dictionary.lookup(word)
            return list(dictionary.suggest(word))
    except real.Timeout as error:
        raise Skip('time') from error


class Pair:
    """Real and specification dictionaries of the same files"""

    def __init__(self, aff, dic):
        self.aff = aff
        self.dic = dic
        self.spec = load_spec(aff, dic)
        self.real = load_real(aff, dic)

    def ask(self, kind, word):
        return ask_real(self.real, kind, word), ask_spec(self.spec, kind, word)

    def agree(self, kind, word):
        got, expected = self.ask(kind, word)
        return got == expected


def lines(data):
    return data.split(b'\n')


TABLE_NAMES = {'BREAK', 'COMPOUNDRULE', 'ICONV', 'OCONV', 'REP', 'MAP', 'CHECKCOMPOUNDPATTERN', 'PHONE', 'AF', 'AM'}


def without(aff, names):
    """Affix file without some directives"""
    return b'\n'.join(line for line in lines(aff) if not line.split() or line.split()[0].decode('latin-1') not in names)


BORDER = {'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDTRIPLE', 'CHECKCOMPOUNDPATTERN',
          'FORCEUCASE', 'COMPOUNDFORBIDFLAG'}
DIRECTIVES = {
    'C02': {'NEEDAFFIX', 'PSEUDOROOT', 'CIRCUMFIX', 'ONLYINCOMPOUND'},
    'C03': {'FORBIDDENWORD', 'NOSUGGEST'},
    'C04': {'COMPOUNDFLAG', 'COMPOUNDBEGIN', 'COMPOUNDMIDDLE', 'COMPOUNDEND', 'COMPOUNDLAST', 'COMPOUNDPERMITFLAG',
            'COMPOUNDFORBIDFLAG', 'SIMPLIFIEDTRIPLE'},
    'C05': {'COMPOUNDRULE'},
    'C06': BORDER,
    'C09': {'ICONV', 'OCONV', 'IGNORE'},
    'C15': {'PHONE'},
}


def not_its_own(pid, pair, kind, word):
    """Whether the disagreement is there also when what the property speaks about is taken away"""
    try:
        if pid in DIRECTIVES:
            aff = without(pair.aff, DIRECTIVES[pid])
            dic = pair.dic
            if pid == 'C06':
                dic = b'\n'.join(line for line in lines(dic) if b' ' not in line)
            return not Pair(aff, dic).agree(kind, word)
        if pid == 'C07' and not any(c.isdigit() for c in word):
            return not Pair(without(pair.aff, {'BREAK'}) + b'\nBREAK 0\n', pair.dic).agree(kind, word)
        if pid == 'C08' and any(name in pair.aff for name in (b'COMPOUND', b'ICONV', b'FORBIDDENWORD')):
            dic = b'\n'.join(stem.lower() + slash + flags for stem, slash, flags in (line.partition(b'/') for line in lines(pair.dic)))
            return not Pair(without(pair.aff, {'KEEPCASE'}), dic).agree(kind, word.lower())
        if pid == 'C13':
            return not Pair(without(pair.aff, {'MAXNGRAMSUGS'}) + b'\nMAXNGRAMSUGS 0\n', pair.dic).agree(kind, word)
    except Skip:
        return False
    return False


def lookups_differ(pair, texts):
    """Whether the two sides already differ on what is a correct word"""
    try:
        return any(not pair.agree('lookup', text) for text in texts)
    except Skip:
        return False


def answer_violation(pid, pair, kind, word):
    """Violation of the property by the answer for the word, or None"""
    got, expected = pair.ask(kind, word)
    if got == expected:
        return None
    if not_its_own(pid, pair, kind, word):
        return None
    if kind == 'suggest' and not isinstance(got, str):
        if pid == 'C10':
            return unexplained(pair, word, got, expected)
        if pid == 'C11':
            return beyond_limits(pair, word, got, expected)
        if pid == 'C12' and lookups_differ(pair, [*got, *expected]):
            return None
    return f'{kind}({word!r}) is {got!r}, should be {expected!r}'


def candidates(spec, word):
    """Every text the edits (and letter case changes) can lead to, and the variants' texts"""
    suggest = spec.suggest
    captype, variants = spec.aff.casing.corrections(word)
    found = set()
    for variant in [*variants, *spec.aff.casing.capitalize(word)] if word else variants:
        raws = [variant.capitalize(), variant] if suggest.is_good_suggestion(variant) else []
        for compounds in (False, True):
            raws += [edit.text for edit in suggest.good_edits(variant, compounds)]
        for raw in raws:
            found.update(suggest.final_texts(raw, word, captype))
    return found


def explained(spec, word, text):
    """Whether the suggestion is a recapitalized correct text, by the dictionary itself"""
    suggest = spec.suggest
    captype = spec.aff.casing.guess(word)

    def good(raw):
        for separator in (None, ' ', '-'):
            parts = raw.split(separator) if separator else [raw]
            if separator == '-' and not suggest.use_dash():
                continue
            if all(suggest.is_good_suggestion(part) for part in parts):
                return True
        return False

    raws = {text, text.lower(), text[:1].lower() + text[1:], *spec.aff.casing.lower(text)}
    return any(good(raw) and text in suggest.final_texts(raw, word, captype) for raw in raws)


def unexplained(pair, word, got, expected):
    spec = pair.spec
    extra = [text for text in got if text not in expected]
    if not extra:
        return None
    with real.Limit(TIME_SPEC):
        try:
            allowed = candidates(spec, word)
        except real.Timeout:
            return None
    for text in extra:
        if text in allowed or (spec.aff.OCONV is None and explained(spec, word, text)):
            continue
        if '-' in word and '-' in text and ask_spec(spec, 'lookup', text):
            continue
        if lookups_differ(pair, [text]):
            return None
        return f'suggest({word!r}) has {text!r}, which is not a correct word (all: {got!r}, should be {expected!r})'
    return None


class Unlimited(spec_suggest.Suggest):
    """No limits, no comparison with what was suggested"""

    def limited(self, kind, candidates, word, captype, handled, limit):
        found = [spec_suggest.Suggestion(text, kind) for candidate in candidates
                 for text in self.final_texts(candidate, word, captype)]
        return found, handled | {suggestion.text for suggestion in found}

    def edit_stage(self, variant, word, captype, handled, compounds, limit):
        found = [spec_suggest.Suggestion(text, 'twowords' if candidate.kind == 'spaceword' else candidate.kind)
                 for candidate in self.good_edits(variant, compounds)
                 for text in self.final_texts(candidate.text, word, captype)]
        return found, handled | {suggestion.text for suggestion in found}


def beyond_limits(pair, word, got, expected):
    if len(set(got)) != len(got):
        return f'suggest({word!r}) repeats a text: {got!r}'
    extra = [text for text in got if text not in expected]
    if not extra:
        return None
    spec = pair.spec
    allowed = candidates(spec, word)
    for text in extra:
        before = got[:got.index(text)]
        if text not in allowed and '-' not in word and any(other.lower() in text.lower() for other in before):
            return f'suggest({word!r}) has {text!r} although it contains an earlier suggestion: {got!r}'
    if len(got) > len(expected):
        aff = spec.aff
        saved = aff.NOSPLITSUGS, aff.MAXNGRAMSUGS
        try:
            aff.NOSPLITSUGS, aff.MAXNGRAMSUGS = False, 100
            unlimited = [text for text in Unlimited(aff, spec.dic, spec.lookup)(word)]
        finally:
            aff.NOSPLITSUGS, aff.MAXNGRAMSUGS = saved
        if all(text in unlimited for text in extra):
            return f'suggest({word!r}) has {extra!r} beyond the limits: {got!r}, should be {expected!r}'
    return None


# properties decided by the answers

def answers(pid, features, seed):
    generated = Generator(seed, features).generate()
    pair = Pair(generated.aff, generated.dic)
    kinds = {'both': ['lookup', 'suggest']}.get(features.get('ask', 'lookup'), [features.get('ask', 'lookup')])
    for word in generated.words:
        for kind in kinds:
            yield pair, kind, word


def judge_answers(pid, features, seed, stats):
    for pair, kind, word in answers(pid, features, seed):
        try:
            what = answer_violation(pid, pair, kind, word)
            stats.evaluated((pair.aff, pair.dic, kind, word), bool(ask_spec(pair.spec, kind, word)))
        except Skip:
            stats.skipped += 1
            continue
        if what:
            yield dict(kind=kind, word=word, aff=pair.aff, dic=pair.dic, what=what)


def repeat_answers(pid, violation):
    pair = Pair(violation['aff'], violation['dic'])
    return answer_violation(pid, pair, violation['kind'], violation['word'])


# C14

def measures():
    from spylls.hunspell.algo import string_metrics as code
    from spec import string_metrics as spec
    return code, spec


MEASURES = ('commoncharacters', 'leftcommonsubstring', 'lcslen', 'ngram')


def measure_violation(name, args, kwargs):
    code, spec = measures()
    if not hasattr(code, name):
        return None
    got = real.outcome(lambda: getattr(code, name)(*args, **kwargs))
    expected = getattr(spec, name)(*args, **kwargs)
    if got != expected:
        return f'{name}({", ".join([repr(a) for a in args] + [f"{k}={v}" for k, v in kwargs.items()])}) ' \
               f'is {got!r}, should be {expected!r}'
    return None


def judge_measures(pid, features, seed, stats):
    rng = random.Random(seed)
    for _ in range(60):
        alphabet = rng.choice(['ab', 'abc', 'abcdefgh', 'aAbB', 'ßéab'])
        s1 = ''.join(rng.choice(alphabet) for _ in range(rng.randint(0, 7)))
        s2 = ''.join(rng.choice(alphabet) for _ in range(rng.randint(0, 7)))
        if rng.random() < 0.5:
            s2 = s1[:rng.randint(0, len(s1))] + s2[:3]
        name = rng.choice(MEASURES)
        args, kwargs = [s1, s2], {}
        if name == 'ngram':
            args = [rng.randint(1, 6), s1, s2]
            kwargs = {key: True for key in ('weighted', 'any_mismatch', 'longer_worse') if rng.random() < 0.4}
        what = measure_violation(name, args, kwargs)
        stats.evaluated((name, args, kwargs), bool(s1 and s2))
        if what:
            yield dict(kind='call', name=name, args=args, kwargs=kwargs, what=what)


def repeat_measures(pid, violation):
    return measure_violation(violation['name'], violation['args'], violation['kwargs'])


# C16, C17, C20: what is read

def difference(got, expected):
    for key in expected:
        if got.get(key) != expected[key]:
            return f'{key} is {got.get(key)!r}, should be {expected[key]!r}'
    return None


def aff_violation(aff, dic):
    spec = load_spec(aff, b'')
    code = load_real(aff, b'')
    if isinstance(code, str):
        return f'reading: {code}'
    return difference(canon.canon_aff(code.aff), canon.canon_aff(spec.aff))


def dic_violation(aff, dic):
    spec = load_spec(aff, dic)
    if not isinstance(load_real(aff, b''), str) and difference(
            canon.canon_aff(load_real(aff, b'').aff), canon.canon_aff(load_spec(aff, b'').aff)):
        return None     # not about the word list
    code = load_real(aff, dic)
    if isinstance(code, str):
        return f'reading: {code}'
    got, expected = canon.canon_dic(code.dic), canon.canon_dic(spec.dic)
    if got != expected:
        if len(got) != len(expected):
            return f'{len(got)} entries, should be {len(expected)}: {got!r}, should be {expected!r}'
        for one, other in zip(got, expected):
            if one != other:
                return f'entry is {one!r}, should be {other!r}'
    rep = difference({'REP': canon.TABLES['REP'](code.aff)}, {'REP': canon.TABLES['REP'](spec.aff)})
    if rep:
        return rep
    stems = {word.stem for word in spec.dic.words}
    stems |= {lower for word in spec.dic.words for lower in spec.aff.casing.lower(word.stem)}
    stems |= {stem.upper() for stem in stems} | {stem.capitalize() for stem in stems}
    for stem in sorted(stems):
        for ignorecase in (False, True):
            got = real.outcome(lambda: canon.canon_words(code.dic.homonyms(stem, ignorecase=ignorecase)))
            expected = canon.canon_words(spec.dic.homonyms(stem, ignorecase=ignorecase))
            if got != expected:
                return f'homonyms({stem!r}, ignorecase={ignorecase}) is {got!r}, should be {expected!r}'
    return None


def judge_reading(pid, features, seed, stats):
    files = Files(seed, 'dic' if pid == 'C16' else 'aff')
    aff_lines, dic_lines = files.generate()
    encoding = files.encoding or 'Windows-1252'
    aff = files.layout(aff_lines, encoding, bom=False, noise=pid != 'C16')
    dic = files.layout(dic_lines, encoding, bom=False)
    what = (aff_violation if pid == 'C17' else dic_violation)(aff, dic)
    stats.evaluated((aff, dic if pid == 'C16' else b''), True)
    if what:
        yield dict(kind='reading', aff=aff, dic=dic, what=what)


def repeat_reading(pid, violation):
    return (aff_violation if pid == 'C17' else dic_violation)(violation['aff'], violation['dic'])


def everything(dictionary):
    if isinstance(dictionary, str):
        return dictionary
    return (canon.canon_aff(dictionary.aff), canon.canon_dic(dictionary.dic))


def container_violation(base, other, container, names, words):
    """base, other: (aff, dic) bytes saying the same"""
    spec = load_spec(*base)
    first = load_real(*base)
    second = load_real(*other, container=container, names=names)
    one, two = everything(first), everything(second)
    if one != two:
        what = difference(two[0], one[0]) if not isinstance(one, str) and not isinstance(two, str) else None
        return f'read as {container}: {what or two!r}, should be as from plain files: {"" if what else one!r}'
    wanted = everything(spec)
    if isinstance(one, str):
        return f'reading: {one}'
    if one != wanted:
        what = difference(one[0], wanted[0])
        if not what:
            what = next((f'entry is {a!r}, should be {b!r}' for a, b in zip(one[1], wanted[1]) if a != b), 'entries')
        # only what depends on the encoding is this property's
        if ascii_only(base):
            return None
        return what
    for word in words:
        for kind in ('lookup', 'suggest'):
            if ask_real(first, kind, word) != ask_real(second, kind, word):
                return f'{kind}({word!r}) differs: {ask_real(second, kind, word)!r}, plain files: ' \
                       f'{ask_real(first, kind, word)!r}'
    return None


def ascii_only(pair):
    return all(byte < 128 for data in pair for byte in data)


def judge_containers(pid, features, seed, stats):
    files = Files(seed, 'all')
    aff_lines, dic_lines = files.generate()
    rng = files.rng
    encoding = files.encoding or 'Windows-1252'
    base = (files.layout(aff_lines, encoding, ending='\n', noise=False),
            files.layout(dic_lines, encoding, ending='\n', noise=False))
    if rng.random() < 0.15:
        # bytes which are not a text in the encoding
        bad = b'x' + rng.choice([b'\xff', b'\x81', b'\xc3', b'\x98'])
        base = (base[0], base[1].rstrip(b'\n') + b'\n' + bad + b'\n')
    files.what = 'dic'
    other = base
    if rng.random() < 0.7:
        other = tuple(relayout(rng, data, files.encoding) for data in base)
    container = rng.choice(['files', 'zip', 'zip'])
    names = rng.choice([('dict.aff', 'dict.dic'), ('dir/x.aff', 'dir/x.dic'), ('b.aff', 'a.dic')])
    words = [line.split('/')[0].strip() for line in dic_lines[1:4]]
    what = container_violation(base, other, container, names, words)
    stats.evaluated((base, other, container), True)
    if what:
        yield dict(kind='container', aff=base[0], dic=base[1], aff2=other[0], dic2=other[1], container=container,
                   names=list(names), words=words, what=what)


def relayout(rng, data, encoding):
    """Another way to write down the same"""
    text = data.split(b'\n')
    out = []
    for i, line in enumerate(text):
        if i and rng.random() < 0.2:
            out.append(rng.choice([b'', b'  ', b'\t']))
        if line and rng.random() < 0.2:
            line = rng.choice([b' ', b'\t']) + line
        if line and rng.random() < 0.2:
            line += rng.choice([b' ', b'\t', b'  '])
        out.append(line)
    result = rng.choice([b'\n', b'\r\n', b'\r'] if rng.random() < 0.7 else [b'\n']).join(out)
    return (b'\xef\xbb\xbf' if encoding in ('UTF-8', None) and rng.random() < 0.4 else b'') + result


def repeat_containers(pid, violation):
    return container_violation((violation['aff'], violation['dic']), (violation['aff2'], violation['dic2']),
                               violation['container'], violation['names'], violation['words'])


# C18

def alone(aff, dic, queries):
    """Answers of a process that has loaded nothing else and asks every query from a newly loaded dictionary"""
    task = pickle.dumps((aff, dic, queries))
    done = subprocess.run([sys.executable, '-m', 'harness.alone'], input=task, capture_output=True, check=False,
                          cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    if done.returncode:
        raise Skip('time')
    return pickle.loads(done.stdout)


def purity_violation(aff, dic, history, other):
    """history: (which dictionary, kind, word, how many suggestions are fetched or None for all)"""
    files = [(aff, dic), other]
    queries = [list(dict.fromkeys((kind, word) for which, kind, word, count in history if which == index and count is None))
               for index in (0, 1)]
    expected = [dict(zip(queries[index], alone(*files[index], queries[index]))) if queries[index] else {}
                for index in (0, 1)]
    loaded = [load_real(*pair) for pair in files]
    if any(isinstance(dictionary, str) for dictionary in loaded):
        raise Skip('not loaded')
    before = [everything(dictionary) for dictionary in loaded]
    kept = []
    for which, kind, word, count in history:
        if count is not None:
            with real.Limit(TIME_REAL):
                iterator = loaded[which].suggest(word)
                real.outcome(lambda: [next(iterator, None) for _ in range(count)])
                kept.append(iterator)
            continue
        got = ask_real(loaded[which], kind, word)
        if got != expected[which][kind, word]:
            return f'{kind}({word!r}) after other queries is {got!r}, without them {expected[which][kind, word]!r}'
    for dictionary, data in zip(loaded, before):
        if everything(dictionary) != data:
            return 'queries change the loaded data: ' + (difference(everything(dictionary)[0], data[0]) or 'entries')
    return None


def judge_purity(pid, features, seed, stats):
    generated = Generator(seed, features).generate()
    other = Generator(seed + 1, features).generate()
    rng = random.Random(seed)
    words = generated.words[:6]
    if not words:
        return
    # another dictionary, or the same but for one of the files
    second = rng.choice([(other.aff, other.dic), (generated.aff, other.dic), (other.aff, generated.dic),
                         (other.aff, generated.dic)])
    history = []
    for _ in range(12):
        which = rng.choice([0, 0, 1])
        kind = rng.choice(['lookup', 'lookup', 'suggest', 'suggest', 'abandoned'])
        word = rng.choice(words)
        history.append((which, 'suggest', word, rng.randint(0, 3)) if kind == 'abandoned' else (which, kind, word, None))
    history += [(0, 'lookup', words[0], None), (0, 'suggest', words[0], None), (1, 'suggest', words[0], None)]
    try:
        what = purity_violation(generated.aff, generated.dic, history, second)
    except (Skip, real.Timeout):
        stats.skipped += 1
        return
    stats.evaluated((generated.aff, generated.dic, history), True)
    if what:
        yield dict(kind='purity', aff=generated.aff, dic=generated.dic, history=[list(h) for h in history],
                   aff2=second[0], dic2=second[1], what=what)


def repeat_purity(pid, violation):
    return purity_violation(violation['aff'], violation['dic'], violation['history'],
                            (violation['aff2'], violation['dic2']))


# C19

def totality_violation(pair, kind, word, limit=60):
    ask_spec(pair.spec, kind, word)
    try:
        with real.Limit(limit):
            if kind == 'lookup':
                got = real.outcome(lambda: pair.real.lookup(word))
            else:
                got = real.outcome(lambda: list(pair.real.suggest(word)))
    except real.Timeout:
        return f'{kind}({word!r}) has not ended after {limit} s of processor time'
    except RecursionError as error:
        return f'{kind}({word!r}) raises {error!r}'
    if real.is_exception(got):
        return f'{kind}({word!r}) raises {got}'
    if kind == 'lookup' and not isinstance(got, bool):
        return f'lookup({word!r}) is {got!r}, not a bool'
    if kind == 'suggest' and not all(isinstance(text, str) for text in got):
        return f'suggest({word!r}) gives something else than texts: {got!r}'
    return None


def judge_totality(pid, features, seed, stats):
    generated = Generator(seed, features).generate()
    pair = Pair(generated.aff, generated.dic)
    if isinstance(pair.real, str):
        raise Skip(pair.real)
    for word in generated.words:
        for kind in ('lookup', 'suggest'):
            try:
                what = totality_violation(pair, kind, word)
            except Skip:
                stats.skipped += 1
                continue
            stats.evaluated((pair.aff, pair.dic, kind, word), True)
            if what:
                yield dict(kind=kind, word=word, aff=pair.aff, dic=pair.dic, what=what)


def repeat_totality(pid, violation):
    return totality_violation(Pair(violation['aff'], violation['dic']), violation['kind'], violation['word'])


SPECIAL = {
    'C14': (judge_measures, repeat_measures), 'C16': (judge_reading, repeat_reading),
    'C17': (judge_reading, repeat_reading), 'C18': (judge_purity, repeat_purity),
    'C19': (judge_totality, repeat_totality), 'C20': (judge_containers, repeat_containers),
}


def profiles(pid):
    return PROFILES.get(pid, [{}])


def judge(pid, index, seed, stats):
    fn = SPECIAL.get(pid, (judge_answers, None))[0]
    try:
        yield from fn(pid, profiles(pid)[index], seed, stats)
    except Skip:
        stats.skipped += 1


def repeat(pid, violation):
    try:
        return SPECIAL.get(pid, (None, repeat_answers))[1](pid, violation)
    except Skip:
        return None


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.skipped = 0
        self.samples = []
        self.seen = set()

    def evaluated(self, case, nontrivial):
        self.evaluations += 1
        key = hash(repr(case))
        if nontrivial and key not in self.seen:
            self.seen.add(key)
            if len(self.samples) < 2:
                self.samples.append(case)
