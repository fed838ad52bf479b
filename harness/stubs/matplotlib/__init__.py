from . import pyplot  # noqa: F401


def use(*a, **k):
    pass


rcParams = {}
