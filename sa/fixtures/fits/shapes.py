import enum

LIMIT = 3


class Kind(enum.IntEnum):
    SMALL = 0
    LARGE = 1


class Keys(object):
    ALPHA = 'a'

    class Inner(object):
        BETA = 'b'


class NotThere(Exception):
    def __init__(self, name, message):
        self.name = name
        self.message = message


class Shape(object):
    sides = 0

    def __init__(self, name, scale=1):
        self.name = name
        self._scale = scale

    @property
    def scale(self):
        return self._scale

    def grow_shape(self, by, keep=False):
        return Shape(self.name, scale=self._scale * by)

    def area_of_shape(self, factor=1):
        raise NotImplementedError

    def rename_shape(self, name):
        self.name = name

    def bounds_of_shape(self):
        return 0, self._scale

    @staticmethod
    def units_of_shape(short):
        return short


class Square(Shape):
    sides = 4

    def area_of_shape(self):  # BAD
        return self._scale ** 2

    def grow_shape(self, by, keep=False, **kwargs):
        ret = super(Square, self).grow_shape(by, keep)
        if keep:
            ret = super(Square, self).grow_shape(by, keep, 4)  # BAD
        return ret


class Circle(Shape):
    def __init__(self, *args, **kwargs):
        self.radius = kwargs.pop('radius', 1)
        super(Circle, self).__init__(*args, **kwargs)

    def area_of_shape(self, factor=1):
        if factor > LIMIT:
            return self.radious  # BAD
        return self.radius * factor
