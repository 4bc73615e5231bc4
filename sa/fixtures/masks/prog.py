import numpy as np


class Variable(object):
    def get_masked_value(self):
        return np.ma.array(self.get_value(), mask=self.get_mask())


class Other(object):
    def get_masked_value(self):  # BAD
        return np.ma.array(self.get_value(), mask=False)


class Mean(object):
    def calculate(self, values):
        ret = np.ma.mean(values, axis=0)
        return ret

    def get_sample_size(self, values):
        return np.ma.array(np.invert(values.mask).sum(axis=0), mask=values.mask.all(axis=0))


class Median(object):
    def calculate(self, values):
        return np.median(values, axis=0)  # BAD

    def get_sample_size(self, values):  # BAD
        return np.ma.array(np.ones(values.shape).sum(axis=0), mask=values.mask.all(axis=0))


class Below(object):
    def calculate(self, values):
        v = values.data
        return np.ma.array(np.std(v, axis=0), mask=values.mask.all(axis=0))  # BAD


class Filled(object):
    def calculate(self, values):
        v = values.filled(np.nan)
        good = np.nanmax(v, axis=0)
        bad = np.max(v, axis=0)  # BAD
        return np.ma.array(good + bad, mask=values.mask.all(axis=0))


class OneStep(object):
    def calculate(self, values):
        store = np.zeros(values.shape[1:])
        for ii in range(len(store)):
            store[ii] = values[:, ii].sum()
        m = values.mask[0]
        return np.ma.array(store, mask=m)  # BAD


class NoMask(object):
    def calculate(self, values):  # BAD
        store = np.zeros(values.shape[1:])
        return np.ma.array(store)


class Cleared(object):
    def calculate(self, values):
        fill = values.copy()
        fill[0] = 0
        fill.mask[:] = False  # BAD
        return fill


class Chosen(object):
    def calculate(self, values, operation=None):
        op = getattr(np, operation)
        if np.ma.is_masked(values):
            return op(values, axis=0)  # BAD
        return np.ma.array(values, copy=False)


class Choice(object):
    def calculate(self, values, operation=None):
        op = getattr(np.ma, operation)
        return op(values, axis=0)


class ByRow(object):
    def calculate(self, values):
        return np.ma.masked_invalid(np.apply_along_axis(row, 0, values))


def row(x):
    if isinstance(x, np.ma.MaskedArray):
        x = x.compressed()
    return np.cumsum(np.concatenate([[0], x]))


class ByRow2(object):
    def calculate(self, values):
        return np.ma.masked_invalid(np.apply_along_axis(row2, 0, values))


def row2(x):
    return np.concatenate([[0], x])  # BAD


class Engine(object):
    def execute(self, variable, fill):
        arr = variable.get_masked_value()
        out = fill.get_masked_value()
        out.data[:] = np.ma.median(arr, axis=0).data
        out.mask[:] = np.ma.median(arr, axis=0).mask
        fill.set_value(out)

    def execute2(self, variable, fill):
        arr = variable.get_masked_value()
        out = fill.get_masked_value()
        res = np.ma.median(arr, axis=0)
        out.data[:] = res.data  # BAD
        fill.set_value(out)

    def execute5(self, variable, fill):
        arr = variable.get_masked_value()
        out = fill.get_masked_value()
        res = np.ma.median(arr, axis=0)
        same = res
        out.data[:] = res.data
        out.mask[:] = same.mask
        out.data[0] = res.data
        out.mask[0] = arr.mask  # BAD

    def execute3(self, variable, fill):
        arr = variable.get_masked_value()
        res = np.ma.median(arr, axis=0)
        fill.get_value()[:] = np.ma.getdata(res)
        if res.mask.any():
            fill.set_mask(res.mask)

    def execute4(self, variable, fill):
        arr = variable.get_value()  # BAD
        fill.set_value(arr)

    def when(self):
        t = self.field.time.get_value()
        return t[1] - t[0]


ENABLED_NUMPY_UFUNCS = ('exp', 'median')  # BAD
