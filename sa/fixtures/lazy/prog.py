class AbstractDriver(object):
    def init_variable_value(self, variable):
        variable.set_value(self.get_variable_value(variable))

    def get_variable_value(self, variable):
        ncvar = self.dataset.variables[variable.name]
        return ncvar[:]


class GreedyDriver(AbstractDriver):
    def init_variable_value(self, variable):
        value = self.get_variable_value(variable)
        for k, v in value.items():
            variable.parent[k].set_value(v)  # BAD

    def get_variable_value(self, variable):
        ret = {}
        for v in variable.parent.values():
            ret[v.name] = 1
        return ret


class CarefulDriver(AbstractDriver):
    def init_variable_value(self, variable):
        value = self.get_variable_value(variable)
        for k, v in value.items():
            target = variable.parent[k]
            if target.has_allocated_value:
                continue
            target.set_value(v)

    def get_variable_value(self, variable):
        ret = {}
        for v in variable.parent.values():
            ret[v.name] = 1
        return ret

    def get_meta(self, dataset):
        out = {}
        for name, var in dataset.variables.items():
            out[name] = {'dtype': var.dtype, 'max': var[:].max()}  # BAD
        return out


class Variable(object):
    def __init__(self, name, value=None):
        self._value = None
        self._mask = None
        self.parent = None
        if value is not None:
            self.set_value(value)

    @property
    def has_allocated_value(self):
        return self._value is not None

    @property
    def has_allocated_mask(self):  # BAD
        return self._value is not None

    @property
    def shape(self):
        if self._holds():
            return self.get_value().shape
        return tuple(len(d) for d in self.dims)

    def _holds(self):
        return self._value is not None

    @property
    def size(self):
        return self.get_value().size  # BAD

    @property
    def ndim(self):
        held = self.has_allocated_value
        return self.get_value().ndim if held else len(self.dims)

    def copy(self):
        ret = Variable(self.name)
        if not self.has_allocated_value:
            return ret
        ret.set_value(self.get_value())
        return ret

    def extract(self):
        return self._helper(load=False)

    def _helper(self, load=True):
        if load:
            return self.get_value()
        return None

    def set_mask(self, mask):
        return [v for v in (self,) if v.has_allocated_value and v.get_value() is not None]

    def set_value(self, value):
        self._value = value

    def get_value(self):
        if self._value is None:
            self._value = self._get_value_()
        return self._value

    def _get_value_(self):
        return 0


class SourcedVariable(Variable):
    def __init__(self, name, rd=None, protected=False):
        self.protected = protected
        self._request_dataset = rd
        self._has_initialized_value = False
        Variable.__init__(self, name)

    def _get_value_(self):
        if self._can_read():
            self._request_dataset.driver.init_variable_value(self)
            self._has_initialized_value = True
            return self._value
        return None

    def remove_value(self):
        self._value = None
        self._has_initialized_value = False  # BAD

    def _can_read(self):
        if self._value is not None or self._has_initialized_value:
            return False
        return not self.protected
