"""Reading of dictionaries from their containers."""

import os
import zipfile

from spec.lookup import Lookup
from spec.reading import read_aff, read_dic
from spec.suggest import Suggest

WITH_PACKAGE = {'en_US': 'en', 'ru': 'ru', 'sv_SE': 'sv'}


def opened(path, encoding):
    """Text of the file, whose bytes invalid in the encoding are read as surrogates"""


def unpacked(file, encoding):
    """The same for a file of an archive"""


def line_of(text, index):
    """Line with its end; '' after the last"""


def lines_from(text, index):
    """Numbered lines that are not blank, without marks of byte order"""
    while True:
        line = line_of(text, index)
        if line == '':
            break
        index += 1
        if index == 1:
            for mark in ('\xef\xbb\xbf', '\ufeff'):
                if line.startswith(mark):
                    line = line[len(mark):]
        line = line.strip()
        if line:
            yield (index, line)


class FileReader:
    """Lines of the file (see contracts/loading.py)"""
    def __init__(self, path, encoding):
        pass


class ZipReader:
    """Lines of the file in an archive"""
    def __init__(self, file, encoding):
        pass


class Dictionary:
    def __init__(self, aff, dic):
        pass


def package_folder():
    """Where the package is"""


def read(aff_source, dic_source):
    """Dictionary of the affix file and the word list, which is in the encoding the affix file names"""
    aff, context = read_aff(aff_source)
    return Dictionary(aff, read_dic(dic_source(context.encoding), aff=aff, context=context))


def from_files(path):
    base = path
    if path in WITH_PACKAGE and not os.path.exists(path + '.aff'):
        base = os.path.join(package_folder(), 'data', WITH_PACKAGE[path], path)
    return read(FileReader(base + '.aff', 'Windows-1252'), lambda encoding: FileReader(base + '.dic', encoding))


def from_zip(path):
    archive = zipfile.ZipFile(path)
    names = archive.namelist()
    tables = [name for name in names if name.endswith('.aff')]
    words = [name for name in names if name.endswith('.dic')]
    return read(ZipReader(archive.open(tables[0]), 'Windows-1252'), lambda encoding: ZipReader(archive.open(words[0]), encoding))
