"""Contracts of reading dictionaries from their containers."""

import z3

from contracts import data as D
from contracts.reading import Context, Lines, READERS, Source, not_blank
from pyvc import types as T
from pyvc.contract import Contract
from pyvc.prove import simplify
from pyvc.values import Builtin, FuncV, Mock, Sym, TupleV, Unsupported, ty_of

DICTIONARY = 'spylls.hunspell.dictionary'
Dictionary = T.Cls('Dictionary')
Archive = T.Cls('Archive')
Text = T.Cls('Text')
Member = T.Cls('Member')
Dic = T.Cls('Dic read')


def maker(name, returns, *types, shown_by=None):
    """Objects are known by the arguments of their constructors"""
    def make(interp, st, cls, args, kwargs):
        if shown_by:
            interp.used.add(shown_by)
        init = cls.module.method(cls.node.name, '__init__')
        given = interp.bind(init.args, FuncV(init, None, cls.module, self_value=cls, cls=cls.node.name), args, kwargs, st)
        values = list(given.values())[1:]
        return Sym(returns, D.function(f'{name}()', *types, returns)(*[interp.term(v, ty) for v, ty in zip(values, types)]))
    return make


def of_library(name, returns, *types):
    def call(interp, st, *args):
        return Sym(returns, D.function(name, *types, returns)(*[interp.term(v, ty) for v, ty in zip(args, types, strict=True)]))
    return call


def affixes_read(interp, st, source):
    interp.used.add('aff.read_aff')
    return TupleV([Sym(ty, D.function(f'read_aff:{i}', Source, ty)(source.t)) for i, ty in enumerate([D.Aff, Context])])


def words_read(interp, st, source, *, aff, context):
    interp.used.add('dic.read_dic')
    terms = [interp.term(v, ty) for v, ty in ((source, Source), (aff, D.Aff), (context, Context))]
    return Sym(Dic, D.function('read_dic', Source, D.Aff, Context, Dic)(*terms))


def readline(interp, st, text):
    """The next line of the text"""
    cell = f'#cursor of {text.t}'
    cursor = interp.heap[cell]
    interp.heap[cell] = Sym(T.Int, simplify(cursor.t + 1))
    return line_of(interp, st, text, cursor)


def line_of(interp, st, text, index):
    return Sym(T.Str, D.function('Text.line', Text, T.Int, T.Str)(text.t, interp.term(index, T.Int)))


def text_of(interp, source, encoding, errors):
    """Text read from its start"""
    name = 'open' if ty_of(source) == T.Str or isinstance(source, str) else 'unpack'
    ty = T.Str if name == 'open' else Member
    text = Sym(Text, D.function(name, ty, T.Str, T.Str, Text)(*[
        simplify(interp.term(v, t)) for v, t in ((source, ty), (encoding, T.Str), (errors, T.Str))]))
    cell = f'#cursor of {text.t}'
    interp.mutable.add(cell)
    interp.heap[cell] = Sym(T.Int, z3.IntVal(0))
    return text


def opened(interp, st, path, mode='r', *, encoding, errors='strict'):
    if mode != 'r':
        raise Unsupported('mode of a file')
    return text_of(interp, path, encoding, errors)


def unpacked(interp, st, member, encoding, errors='strict'):
    return text_of(interp, member, encoding, errors)


def member_attribute(name):
    """Archive and name of a file opened in it"""
    def get(interp, member, st):
        t = simplify(member.t)
        if t.decl().name() != 'ZipFile.open' or t.arg(0).decl().name() != 'ZipFile':
            raise Unsupported(f'{name} of a file in an archive')
        if name == 'name':
            return Sym(T.Str, t.arg(1))
        return Mock('file', attrs={'_file': Mock('file', attrs={'name': Sym(T.Str, t.arg(0).arg(0))})})
    return get


def register(contracts):
    contracts.adaptors[('Text', 'readline')] = D.method('readline', readline)
    contracts.adaptors[('Member', 'name')] = member_attribute('name')
    contracts.adaptors[('Member', '_fileobj')] = member_attribute('_fileobj')
    contracts.builtins['open'] = Builtin('open', opened)
    contracts.library['io.TextIOWrapper'] = unpacked
    contracts.summaries[('spec.loading', 'line_of')] = line_of
    contracts.summaries[('spec.loading', 'opened')] = lambda interp, st, path, encoding: text_of(
        interp, path, encoding, 'surrogateescape')
    contracts.summaries[('spec.loading', 'unpacked')] = lambda interp, st, member, encoding: text_of(
        interp, member, encoding, 'surrogateescape')
    for cls, params, file, text in (('FileReader', ['path'], 'path', 'opened'),
                                    ('ZipReader', ['path', 'name'], 'zipfile.ZipFile(path).open(name)', 'unpacked')):
        def used(case, real, spec, *more, **kwargs):
            names = ', '.join([*params, 'encoding', *[name for name, _ in more]])
            real = '\n    '.join(real.format(reader=f'{cls}({file}, encoding)').split('; '))
            contracts.add(Contract(
                f'{cls}{case}', real=(f'{READERS}.file_reader', None, f'def use({names}):\n    {real}'),
                spec=('spec.loading', None, f'def use({names}):\n    return {spec.format(text=text, file=file)}'),
                params=[(name, T.Str) for name in [*params, 'encoding']] + list(more), returns=Lines, made=[cls, 'BaseReader'],
                callable_as=False, each=[not_blank], **kwargs, serves=['C16', 'C17', 'C20'], raises=[]))

        used('()', 'return list({reader})', 'list(lines_from({text}({file}, encoding), 0))')
        # after some lines
        used('.reset_encoding', 'reader = {reader}; reader.line_no = number; reader.reset_encoding(other); return list(reader)',
             'list(lines_from({text}({file}, other), number))', ('other', T.Str), ('number', T.Int),
             requires=[lambda interp, receiver, values, st: values[-1].t >= 0])
    contracts.makers.update({
        'FileReader': maker('FileReader', Source, T.Str, T.Str), 'ZipReader': maker('ZipReader', Source, Member, T.Str),
        'Dictionary': maker('Dictionary', Dictionary, D.Aff, Dic),
        'Lookup': maker('Lookup', D.Lookup, D.Aff, D.Dic, shown_by='Lookup()'),
        'Suggest': maker('Suggest', D.Suggest, D.Aff, D.Dic, D.Lookup, shown_by='Suggest()')})
    for module in (f'{READERS}.aff', 'spec.reading'):
        contracts.summaries[(module, 'read_aff')] = affixes_read
    for module in (f'{READERS}.dic', 'spec.reading'):
        contracts.summaries[(module, 'read_dic')] = words_read
    contracts.builtins['__file__'] = Sym(T.Str, z3.Const('__file__', z3.StringSort()))
    contracts.library.update({
        'os.path.exists': of_library('os.path.exists', T.Bool, T.Str),
        'os.path.join': lambda interp, st, *parts: of_library('os.path.join', T.Str, *[T.Str for _ in parts])(interp, st, *parts),
        'os.path.dirname': of_library('os.path.dirname', T.Str, T.Str),
        'os.path.realpath': of_library('os.path.realpath', T.Str, T.Str),
        'zipfile.ZipFile': of_library('ZipFile', Archive, T.Str),
    })
    contracts.adaptors[('Archive', 'namelist')] = D.method('namelist', lambda interp, st, archive: Sym(
        D.Strs, D.function('ZipFile.namelist', Archive, D.Strs)(archive.t)))
    contracts.adaptors[('Archive', 'open')] = D.method('open', lambda interp, st, archive, name: Sym(
        Member, D.function('ZipFile.open', Archive, T.Str, Member)(archive.t, interp.term(name, T.Str))))

    def package_folder(interp, st):
        return contracts.library['os.path.dirname'](
            interp, st, contracts.library['os.path.realpath'](interp, st, contracts.builtins['__file__']))

    contracts.summaries[('spec.loading', 'package_folder')] = package_folder

    for name, raises in (('from_files', []), ('from_zip', ['index in range', 'not exhausted'])):
        contracts.add(Contract(
            f'Dictionary.{name}', real=(DICTIONARY, 'Dictionary', name), spec=('spec.loading', None, name),
            params=[('path', T.Str)], returns=Dictionary, serves=['C20'], callable_as=False, raises=raises))

    # what they are made of is what their methods are given
    parts = [('aff', D.Aff), ('dic', D.Dic)]
    for cls, module, spec_module, more, fields in (
            ('Lookup', 'lookup', 'spec.lookup', [], {'aff': D.Aff, 'dic': D.Dic}),
            ('Suggest', 'suggest', 'spec.suggest', [('lookup', D.Lookup)], D.Suggest.fields)):
        params = [*parts, *more]
        names = ', '.join(name for name, _ in params)
        use = f'def use({names}):\n    made = {cls}({names})\n    return ({", ".join(f"made.{name}" for name in fields)})'
        contracts.add(Contract(f'{cls}()', real=(f'spylls.hunspell.algo.{module}', None, use), spec=(spec_module, None, use),
                               params=params, returns=T.TupleOf(*fields.values()), made=[cls], callable_as=False))
    for name, returns, answers in (('lookup', T.Bool, 'Lookup(aff, dic)(word)'),
                                   ('suggest', D.Strs, 'list(Suggest(aff, dic, Lookup(aff, dic))(word))')):
        real = f'Dictionary(aff, dic).{name}(word)'
        contracts.add(Contract(
            f'Dictionary.{name}', params=[*parts, ('word', T.Str)], returns=returns, made=['Dictionary'], callable_as=False,
            real=(DICTIONARY, None, f'def use(aff, dic, word):\n    return {real if name == "lookup" else f"list({real})"}'),
            spec=('spec.loading', None, f'def use(aff, dic, word):\n    return {answers}')))
