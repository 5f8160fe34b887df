"""Text files whose content may be symbolic.

A case creates each file in a scratch directory, which goes away after the
path. The file exists on disk; when its text is symbolic, reading the file (by
any function that ends in ``open``) yields that text instead.
"""
import builtins
import io
import os
import shutil
import tempfile

_OPEN = io.open
_state = {'dir': None, 'content': {}}


class TextIO:
    """A text file open for reading."""

    def __init__(self, text):
        self._text = text
        self._rest = None
        self.closed = False

    def _lines(self):
        if self._rest is None:
            parts = self._text.split('\n')
            self._rest = [part + '\n' for part in parts[:-1]]
            if len(parts[-1]):
                self._rest.append(parts[-1])
        return self._rest

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def close(self):
        self.closed = True

    def readable(self):
        return True

    def writable(self):
        return False

    def __iter__(self):
        return self

    def __next__(self):
        lines = self._lines()
        if not lines:
            raise StopIteration
        return lines.pop(0)

    def readline(self, *_):
        lines = self._lines()
        return lines.pop(0) if lines else ''

    def readlines(self, *_):
        lines = self._lines()
        self._rest = []
        return lines

    def read(self, *_):
        text = ''
        for line in self.readlines():
            text = text + line
        return text


def _open(file, mode='r', *args, **kwargs):
    content = _state['content']
    if not isinstance(mode, str) and hasattr(mode, 'concrete'):
        mode = mode.concrete()
    if content and not isinstance(file, int):
        key = os.path.realpath(os.fspath(file))
        if key in content and set(mode) <= set('rt'):
            return TextIO(content[key])
    return _OPEN(file, mode, *args, **kwargs)


def create(name, text):
    """The path of a new file."""
    if _state['dir'] is None:
        _state['dir'] = os.path.realpath(tempfile.mkdtemp(prefix='sx-'))
    path = os.path.join(_state['dir'], name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    symbolic = not isinstance(text, str)
    with _OPEN(path, 'w', newline='') as fp:
        fp.write('' if symbolic else text)
    if symbolic:
        _state['content'][path] = text
    io.open = builtins.open = _open
    return path


def cleanup():
    _state['content'].clear()
    if _state['dir'] is not None:
        shutil.rmtree(_state['dir'], ignore_errors=True)
        _state['dir'] = None
