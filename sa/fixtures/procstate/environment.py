class Environment(object):
    def __init__(self):
        self.FLAG = 1


env = Environment()
