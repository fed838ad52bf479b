OVERLOADS = {}


def overload(target, **options):
    def deco(f):
        OVERLOADS.setdefault(getattr(target, "__name__", str(target)), []).append(f)
        return f
    return deco


overload_method = overload_attribute = lambda *a, **k: (lambda f: f)


def register_jitable(*a, **k):
    if a and callable(a[0]):
        return a[0]
    return lambda f: f


def intrinsic(f=None, **k):
    return f if f else (lambda g: g)
