"""Fixture for P08 (never run)."""
import os
import numpy as np
from collections import OrderedDict
from ocgis import shapes
from ocgis.shapes import Shape, Square, Circle, Kind, Keys, NotThere
from ocgis.shapes import Triangle  # BAD


def names(flag, items):
    total = 0
    for item in items:
        total += item
    if flag:
        return totals  # BAD
    out = [x for x in items if x]
    try:
        value = int(flag)
    except ValueError as e:
        message = str(e)
        value = None
    if value is None:
        return message, e  # BAD
    return out, total, item


def later(flag):
    if flag:
        print(result)  # BAD
    else:
        result = 1
        return result


def guarded():
    try:
        return undefined_name
    except NameError:
        return None


def calls(flag, values):
    s = Shape('a', scale=2)
    if flag:
        s = Shape('a', size=2)  # BAD
    c = Circle('c', scale=1, radius=2)
    d = Circle('c', scales=1, radius=2)  # BAD
    s.grow_shape(2, keep=True)
    s.grow_shape()  # BAD
    values.grow_shape(1, 2, 3, 4)  # BAD
    values.grow_shape(1)
    Shape.units_of_shape('m')
    shapes.Shape('b')
    shapes.Shapes('b')  # BAD
    raise NotThere('message')  # BAD


def attributes(kind, obj):
    if kind == Kind.SMALL:
        return Keys.ALPHA, Keys.Inner.BETA
    if kind == Kind.MEDIUM:  # BAD
        return Keys.GAMMA  # BAD
    if obj.scale > 1:
        return obj.scaled_twice  # BAD
    if hasattr(obj, 'optional_thing'):
        return obj.optional_thing
    obj.marker = 1
    return obj.marker, np.whatever, os.path.join('a', 'b')


def results(flag):
    s = Square('s')
    low, high = s.bounds_of_shape()
    low, mid, high = s.bounds_of_shape()  # BAD
    for x in s.rename_shape('b'):  # BAD
        print(x)
    return low, mid, high


def formats(a, b):
    m = '{} {}'.format(a, b)
    if a:
        m = '{} {} {}'.format(a, b)  # BAD
    m += '{name}'.format(nam=a)  # BAD
    m += '%s %d' % (a, b)
    m += '%s %d' % (a,)  # BAD
    return m


def containers(a):
    x = []
    x.append(a)
    if a:
        x.append(a, 1)  # BAD
        x.add(a)  # BAD
    y = OrderedDict()
    y.update({'a': 1})
    y.append(a)  # BAD
    return ','.join(x), y


def dead(flag):
    raise NotImplementedError
    return undefined_here


def _unreferenced():
    return undefined_there
