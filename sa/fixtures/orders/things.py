import datetime
import os
import random

import numpy as np


def listed(names):
    return list(set(names))  # BAD


def listed_sorted(names):
    return sorted(set(names))


def sorted_in_place(names):
    ret = list(set(names))
    ret.sort()
    return ret


def by_length(names):
    return sorted(set(names), key=len)  # BAD


def longest(names):
    return max(set(names), key=len)  # BAD


def numbered(names):
    ret = {}
    for idx, name in enumerate(set(names)):
        ret[idx] = name
    return [ret[i] for i in range(len(ret))]  # BAD


def joined(names):
    ret = ''
    for name in set(names):
        ret += name + ','
    return ret  # BAD


def collected(names):
    ret = []
    for name in set(names):
        ret.append(name.upper())
    return ret  # BAD


def total(names):
    ret = 0
    for name in set(names):
        ret += len(name)
    return ret


def has_long(names):
    for name in set(names):
        if len(name) > 9:
            return True
    return False


def first_long(names):
    for name in set(names):
        if len(name) > 9:
            return name  # BAD
    return None


def last_long(names):
    ret = None
    for name in set(names):
        if len(name) > 9:
            ret = name
    return ret  # BAD


def the_one(names):
    found = set(names)
    if len(found) > 1:
        raise ValueError('more than one: {}'.format(', '.join(found)))
    return list(found)[0]


def any_one(names):
    found = set(names)
    return list(found)[0]  # BAD


def popped(names):
    return set(names).pop()  # BAD


def of_two(names):
    a, b = set(names)  # BAD
    return a


class Holder(object):

    def __init__(self, names):
        self.names = set(names)
        self.ordered = sorted(self.names)

    def each(self):
        return [n for n in self.names]  # BAD

    def each_sorted(self):
        return [n for n in self.ordered]

    def add_to(self, target):
        for n in self.names:
            target.add_variable(n)  # BAD

    def drop_from(self, target):
        for n in self.names:
            target.pop(n)

    def synchronise(self, vm):
        for n in self.names:
            vm.bcast(n)  # BAD

    def through(self, vm):
        for n in self.names:
            tell(vm, n)  # BAD


def tell(vm, n):
    vm.barrier()


def _names(path):
    ret = []
    for dirpath, dirnames, filenames in os.walk(path):
        for fn in filenames:
            ret.append(fn)
    return ret


def first_file(path):
    return _names(path)[0]  # BAD


def number_of_files(path):
    return len(_names(path))


def sorted_files(path):
    ret = []
    for dirpath, dirnames, filenames in os.walk(path):
        dirnames.sort()
        for fn in sorted(filenames):
            ret.append(fn)
    return ret


def entries(path):
    return os.listdir(path)  # BAD


def stamp():
    return datetime.datetime.now()  # BAD


def jitter(x):
    return x + random.random()  # BAD


def salted(x):
    return hash(x) % 10  # BAD


def same(a, b):
    return id(a) == id(b)


def filled(n):
    ret = np.empty(n)
    for i in range(n):
        ret[i] = i
    return ret


def partly(n):
    ret = np.empty(n)  # BAD
    for i in range(n):
        if i > 3:
            ret[i] = i
    return ret


def both(n):
    ret = np.empty(n)
    for i in range(n):
        if i > 3:
            ret[i] = i
        else:
            ret[i] = 0
    return ret


def sometimes(n, flag):
    ret = np.empty(n)  # BAD
    if flag:
        ret[:] = 0
    return ret


def columns(a, b):
    ret = np.empty((len(a), 2))
    ret[:, 0] = a
    ret[:, 1] = b
    return ret


def one_column(a, b):
    ret = np.empty((len(a), 2))  # BAD
    ret[:, 0] = a
    return ret


def stops(n):
    ret = np.empty(n)  # BAD
    for i in range(n):
        ret[i] = i
        if i > 5:
            break
    return ret


def receive(vm):
    return vm.comm.recv(tag=4)  # BAD


def receive_from(vm, rank):
    return vm.comm.recv(source=rank, tag=4)


class Tagged(object):

    def __init__(self):
        self.tags = {}

    def put(self, tag, names):
        self.tags[tag] = set(names)

    def take(self, tag):
        return tuple(self.tags[tag])  # BAD

    def has(self, tag, name):
        return name in self.tags[tag]


def hidden(n):
    ret = np.ma.array(np.empty(n), mask=True)
    ret[0] = 4
    return ret
