def inner(x, eager=False, strict=True, name=None):
    return x, eager, strict, name


def passes(x, eager=False, strict=True):
    return inner(x, eager=eager, strict=not strict)


def drops(x, eager=False, strict=True):
    if strict:
        return inner(x, eager=eager)
    return inner(x, strict=strict)  # BAD


def fixes(x, eager=False):
    print(eager)
    return inner(x, eager=True)  # BAD


def decided(x, eager=False):
    if eager:
        return inner(x, eager=True)
    return inner(x, eager=False)


def renamed(x, eager=False):
    e = eager or False
    return inner(x, e)


def unused(x, eager=False):  # BAD
    return x


def replaced(x, fill=None):  # BAD
    fill = 3
    return x, fill


def defaulted(x, fill=None):
    if fill is None:
        fill = 3
    return x, fill


def only_tested(x, fill=None):  # BAD
    if fill is None:
        fill = 3
    return x


def nested(x, fill=None):
    def f():
        return fill, x
    return f


def keywords(x, **kwargs):
    eager = kwargs.pop('eager', False)
    return inner(x, eager=eager, **kwargs)


def keywords_lost(x, **kwargs):
    eager = kwargs.pop('eager', False)  # BAD
    return inner(x, eager=True, **kwargs)  # BAD


def keywords_dropped(x, **kwargs):  # BAD
    eager = kwargs.pop('eager', False)
    return inner(x, eager=eager)


def move(source, target):
    return source, target


def swaps(source, target):
    return move(target, source)  # BAD  # BAD


def fits(source, target):
    return move(source, target)


class GridChunker(object):
    def __init__(self, strict=True):
        self._strict = strict

    def run(self, x):
        return inner(x, strict=self._strict)

    def run_without(self, x):
        return inner(x, eager=True)  # BAD


class Kept(object):
    def __init__(self, low=None, high=None, mode='auto', size=None, lost=None):
        self.low = high  # BAD
        self.high = low  # BAD
        self._mode = mode
        self._size = size
        self._lost = lost  # BAD

    @property
    def mode(self):
        if self._mode in ('auto', None):  # BAD
            ret = 'x'
        else:
            ret = self._mode
        return ret

    @property
    def size(self):
        if self._size is None or self.low is not None:  # BAD
            ret = 3
        else:
            ret = self._size
        return ret

    def good_size(self):
        if self._size is None and self.low is not None:
            ret = 3
        else:
            ret = self._size
        return ret

    def good_mode(self):
        if self._mode == 'auto':
            return 'x'
        return self._mode


def asked(x, driver=None):  # BAD
    if driver is None:
        return x
    return x + 1


def auto_true(x, mode='auto'):
    if mode:  # BAD
        mode = x
    return mode


def alias_of(x, mode='auto'):
    if mode == 'csv+':
        mode = 'csv'
    if mode == 'auto':
        mode = x
    return mode
