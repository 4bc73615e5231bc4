class Parameter(object):
    pass


class BooleanParameter(Parameter):
    pass


class Aggregate(BooleanParameter):
    def __init__(self, v):
        self.v = v


class TimeRange(Parameter):
    def __init__(self, v):
        self.v = v


class OcgOperations(object):
    def __init__(self, aggregate=None, time_range=None, level_range=None, snippet=None):  # BAD
        self.aggregate = Aggregate(aggregate)
        self.time_range = TimeRange(time_range)
        self.level_range = TimeRange(level_range)
        self.snippet = Aggregate(snippet)
