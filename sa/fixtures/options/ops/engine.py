class OperationsEngine(object):
    def __init__(self, ops):
        self.ops = ops

    def run(self, field):
        if self.ops.snippet:
            field = field[0]
        if self.ops.time_range is not None:
            field = field.get_between(*self.ops.time_range)
        if self.ops.aggregate:
            field = field.mean()
        if self.ops.level_range is not None:
            field = field.get_between()
        return field
