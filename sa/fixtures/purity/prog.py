from copy import copy


class Base(object):
    def copy(self):
        return copy(self)


class Thing(Base):
    def __init__(self, name):
        self.name = name
        self.flag = False
        self._cache = None
        self.items = {}
        self.own = []

    @property
    def cached(self):
        if self._cache is None:
            self._cache = len(self.items)
        return self._cache

    @property
    def always(self):
        self._cache = len(self.items)  # BAD
        return self._cache

    def set_flag(self, value):
        self.flag = value  # BAD

    def get_flagged(self):
        self.set_flag(True)
        return list(self.items)

    def get_restored(self):
        before = self.flag
        self.set_flag(True)
        try:
            return list(self.items)
        finally:
            self.flag = before

    def get_other(self):
        ret = self.copy()
        ret.flag = True
        return ret

    def get_inplace(self, inplace=False):
        ret = self if inplace else self.copy()
        ret.flag = True
        return ret

    def get_shared(self):
        ret = self.copy()
        ret.items['x'] = 1
        return ret

    def get_named(self, other):
        other.name = self.name  # BAD
        return other

    def get_copied(self, other):
        other = other.copy()
        other.name = self.name
        return other

    def add(self, item):
        self.own.append(item)

    def copy(self):
        ret = Base.copy(self)
        ret.items = dict(self.items)
        ret.own = list(self.own)
        return ret


class Tagged(Thing):
    def __init__(self, name):
        Thing.__init__(self, name)
        self.tags = []

    def get_tagged(self, tag):
        ret = self.copy()
        ret.tags[:] = [tag]  # BAD
        return ret

    def get_well_tagged(self, tag):
        ret = self.copy()
        ret.tags = [tag]
        return ret

    def add_tag(self, tag):
        self.tags.append(tag)  # BAD


def run():
    t = Tagged('a')
    t.get_flagged()
    return t.get_inplace(inplace=True)
