"""The code under verification: loaded from /repo's working tree."""

import os
import shutil
import signal
import sys
import tempfile
import zipfile

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def load(aff, dic, container='files', names=('dict.aff', 'dict.dic')):
    from spylls.hunspell import Dictionary
    folder = tempfile.mkdtemp(prefix='verif-')
    try:
        if container == 'zip':
            path = os.path.join(folder, 'dict.zip')
            with zipfile.ZipFile(path, 'w') as file:
                file.writestr(names[0], aff)
                file.writestr(names[1], dic)
            return Dictionary.from_zip(path)
        path = os.path.join(folder, 'dict')
        with open(path + '.aff', 'wb') as file:
            file.write(aff)
        with open(path + '.dic', 'wb') as file:
            file.write(dic)
        return Dictionary.from_files(path)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


class Timeout(BaseException):
    pass


class Limit:
    """CPU time limit for a block, in seconds"""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(*_):
            raise Timeout()
        self.previous = signal.signal(signal.SIGVTALRM, handler)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.previous)


def outcome(fn):
    """Value, or the exception as a text"""
    try:
        return fn()
    except Exception as error:  # pylint: disable=broad-except
        return f'exception: {type(error).__name__}: {error}'


def is_exception(value):
    return isinstance(value, str) and value.startswith('exception: ')
