class Type:
    def __init__(self, *a, **k):
        self.a = a
        self.__dict__.update(k)


class Optional(Type):
    def __init__(self, type):
        self.type = type


class Integer(Type):
    pass


class NoneType(Type):
    pass


class Array(Type):
    def __init__(self, dtype=None, ndim=1, layout="C"):
        self.dtype, self.ndim, self.layout = dtype, ndim, layout


class Boolean(Type):
    pass


class Float(Type):
    pass
