"""Fixture for P06 (never run)."""
from copy import deepcopy


def helper(dct, key):
    if key not in dct:
        dct[key] = 1  # BAD
    return dct[key]


def maybe(items, create=False):
    if create:
        items['new'] = 1
    return items


class Base(object):
    _deep = True

    def _set(self, value):
        if self._deep:
            value = deepcopy(value)
        self._v = self.parse(value)

    value = property(lambda self: self._v, _set)

    def parse(self, value):
        return self._parse_(value)

    def _parse_(self, value):
        return value


class AbstractParameter(Base):
    pass


class Good(AbstractParameter):
    def _parse_(self, value):
        value['x'] = 1
        return value


class Bad(AbstractParameter):
    _deep = False

    def _parse_(self, value):
        value['x'] = 1  # BAD
        return value


class Thing(object):
    def __init__(self, names=None, opts=None, more=None):
        self.names = names
        if opts is None:
            opts = {}
        else:
            opts = opts.copy()
        opts['a'] = 1
        self.opts = opts
        self.more = list(more or ())

    def add(self, name):
        self.names.append(name)  # BAD
        self.more.append(name)

    def direct(self, dslice):
        for k in list(dslice):
            dslice.pop(k)  # BAD

    def through(self, attrs):
        return helper(attrs, 'z')

    def flagged(self, items):
        return maybe(items)

    def element(self, records):
        for r in records:
            r['p'] = 1  # BAD

    def own(self, records):
        records = [dict(r) for r in records]
        for r in records:
            r['p'] = 1
        return records

    def fills(self, fill):
        fill[0] = 1

    def forwards(self, **kwargs):
        repeaters = kwargs.pop('repeaters', None)
        if repeaters is not None:
            repeaters.append('x')  # BAD
        kwargs['own'] = 1
        limit = kwargs.pop('limit', 10)
        limit += 1
        return limit

    def deep(self, **kwargs):
        return self.forwards(**kwargs)

    def forwards_copy(self, **kwargs):
        repeaters = list(kwargs.pop('names', ()))
        repeaters.append('x')
        return repeaters


class Request(object):
    def __init__(self, metadata=None, settings=None):
        self._metadata = metadata
        self._settings = dict(settings)
        self.metadata['names']['units'] = 'K'  # BAD
        self.settings['x'] = 1

    @property
    def metadata(self):
        if self._metadata is None:
            self._metadata = {}
        return self._metadata

    @property
    def settings(self):
        return self._settings
