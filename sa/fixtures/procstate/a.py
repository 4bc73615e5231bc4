import os
import copy
import itertools
import functools
import warnings
import numpy as np
from ocgis.environment import env

TABLE = {'a': [1, 2], 'b': {'c': 3}}
NAMES = ['x', 'y']
COUNTER = itertools.count()


class Base(object):
    default = {'k': 1}
    shared = []
    names = ['n']
    own = []

    def __init__(self, value=None):
        self.own = []
        self.held = value or self.default

    def good(self):
        self.own.append(1)
        d = dict(self.default)
        d['x'] = 1
        return d

    def bad(self):
        self.shared.append(1)  # BAD

    def bad_alias(self):
        self.held['x'] = 1  # BAD

    def bad_class(self):
        self.__class__.flag = 1  # BAD
        type(self).flag = 2  # BAD
        Base.flag = 3  # BAD


def helper(x):
    x.pop('a')


def deep(x):
    for v in x.values():
        v.append(2)


def f1(extra={}):
    extra['a'] = 1  # BAD
    return extra


def f2(extra=None):
    extra = extra or {}
    extra['a'] = 1
    return extra


def f3():
    helper(TABLE)  # BAD
    helper(TABLE.copy())
    helper(copy.deepcopy(TABLE))
    deep(copy.deepcopy(TABLE))
    deep({'a': list(NAMES)})


def f3b():
    deep(TABLE.copy())  # BAD


def f4(names=NAMES):
    out = list(names)
    out.insert(0, 'z')
    return out


def f5():
    n = NAMES
    n += ['z']  # BAD
    m = NAMES + ['z']
    m.append('q')


def get():
    return TABLE['a']


def f6():
    get().append(3)  # BAD
    sorted(get()).append(3)


def f7():
    env.FLAG = 2  # BAD
    setattr(env, 'FLAG', 3)  # BAD


def f8():
    orig = env.FLAG
    env.FLAG = 2
    try:
        f4()
    finally:
        env.FLAG = orig


def f9():
    os.environ['A'] = '1'  # BAD
    os.chdir('/')  # BAD
    np.seterr(all='ignore')  # BAD
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
    warnings.simplefilter('ignore')  # BAD


_x = None


def f10():
    global _x  # BAD
    _x = 1
    f9.calls = 1  # BAD
    return next(COUNTER)  # BAD


@functools.lru_cache(maxsize=None)
def f11(uri):  # BAD
    return [uri]
