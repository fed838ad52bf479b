"""Which memory the iterations of a parallel loop read and write.

While a loop runs under the policy 'record', every array the body captures is replaced by a Rec: an array of the same
memory that notes the addresses of the elements it reads and writes.  Views of a Rec are Recs.  Arrays made by an
iteration are its own and are not followed.
"""
import numpy as np

QUIET = {"shape", "ndim", "size", "dtype", "strides", "flags", "itemsize", "nbytes", "base", "ctypes", "__class__", "_cells", "_plain",
         "__array_ufunc__", "__array_function__", "__array_priority__", "__array_finalize__", "__getitem__", "__setitem__", "__len__",
         "__array_interface__", "__array_struct__", "T", "transpose", "reshape", "view", "__dict__", "swapaxes"}
LOG = None        # (read addresses, written addresses) of the running iteration


def note(addresses, write):
    if LOG is not None:
        LOG[1 if write else 0].update(addresses)


def cells(a):
    """the address of every element of a, in an array of its shape"""
    out = np.zeros(a.shape, dtype=np.int64) + a.__array_interface__["data"][0]
    for d in range(a.ndim):
        s = [1] * a.ndim
        s[d] = a.shape[d]
        out += (np.arange(a.shape[d], dtype=np.int64) * a.strides[d]).reshape(s)
    return out


def plain(x):
    if isinstance(x, Rec):
        return x._plain
    if isinstance(x, (list, tuple)):
        return type(x)(plain(v) for v in x)
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def read_all(x):
    if isinstance(x, Rec):
        note(x._cells.ravel().tolist(), False)
    elif isinstance(x, (list, tuple)):
        for v in x:
            read_all(v)
    elif isinstance(x, dict):
        for v in x.values():
            read_all(v)


class Rec:
    """Quacks like the array _plain."""
    __array_priority__ = 1000

    def __init__(self, a, c=None):
        self._plain = a
        self._cells = cells(a) if c is None else c

    # -- shape only
    shape = property(lambda s: s._plain.shape)
    ndim = property(lambda s: s._plain.ndim)
    size = property(lambda s: s._plain.size)
    dtype = property(lambda s: s._plain.dtype)
    T = property(lambda s: Rec(s._plain.T, s._cells.T))

    def __len__(self):
        return len(self._plain)

    def reshape(self, *a):
        return wrap(self._plain.reshape(*a))

    def transpose(self, *a):
        return wrap(self._plain.transpose(*a))

    # -- elements
    def __getitem__(self, key):
        read_all(key)
        key = plain(key)
        v = self._plain[key]
        if isinstance(v, np.ndarray):
            c = self._cells[key]
            if v.ndim and np.may_share_memory(v, self._plain):
                return Rec(v, c)
            note(c.ravel().tolist(), False)
            return v
        note([int(self._cells[key])], False)
        return v

    def __setitem__(self, key, value):
        read_all(key)
        read_all(value)
        key = plain(key)
        self._plain[key] = plain(value)
        c = self._cells[key]
        note(c.ravel().tolist() if isinstance(c, np.ndarray) else [int(c)], True)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    # -- everything else reads the whole
    def __getattr__(self, name):
        if name.startswith("__array_") and name != "__array__":
            raise AttributeError(name)
        v = getattr(self._plain, name)
        if callable(v):
            def f(*a, **k):
                read_all(self)
                read_all(a)
                read_all(k)
                if name in ("fill", "sort", "put", "itemset", "partition", "resize"):
                    note(self._cells.ravel().tolist(), True)
                return v(*plain(a), **plain(k))
            return f
        read_all(self)
        return v

    def __array__(self, dtype=None):
        read_all(self)
        return np.array(self._plain, dtype=dtype)

    def __array_ufunc__(self, ufunc, method, *a, **k):
        out = k.get("out", ())
        read_all(a)
        for o in out:
            if isinstance(o, Rec):
                note(o._cells.ravel().tolist(), True)
        r = getattr(ufunc, method)(*plain(a), **plain(k))
        return out[0] if out else r

    def __array_function__(self, func, types, a, k):
        read_all(a)
        read_all(k)
        if isinstance(k.get("out"), Rec):
            note(k["out"]._cells.ravel().tolist(), True)
        if func in (np.copyto, np.put, np.place, np.putmask, np.fill_diagonal) and isinstance(a[0], Rec):
            note(a[0]._cells.ravel().tolist(), True)
        return func(*plain(a), **plain(k))


def _binary(op):
    def f(self, other):
        read_all(self)
        read_all(other)
        return getattr(self._plain, op)(plain(other))
    return f


def _inplace(op):
    def f(self, other):
        read_all(self)
        read_all(other)
        note(self._cells.ravel().tolist(), True)
        getattr(self._plain, op)(plain(other))
        return self
    return f


def _unary(op):
    def f(self):
        read_all(self)
        return getattr(self._plain, op)()
    return f


for _o in "add sub mul truediv floordiv mod pow and or xor lshift rshift matmul".split():
    setattr(Rec, "__%s__" % _o, _binary("__%s__" % _o))
    setattr(Rec, "__r%s__" % _o, _binary("__r%s__" % _o))
    setattr(Rec, "__i%s__" % _o, _inplace("__i%s__" % _o))
for _o in "lt le gt ge eq ne divmod contains".split():
    setattr(Rec, "__%s__" % _o, _binary("__%s__" % _o))
for _o in "neg pos abs invert bool float int index".split():
    setattr(Rec, "__%s__" % _o, _unary("__%s__" % _o))
Rec.__hash__ = None


def wrap(x):
    if isinstance(x, np.ndarray) and x.dtype != object and x.size:
        return Rec(x)
    if type(x) in (list, tuple) and any(isinstance(v, np.ndarray) for v in x):
        return type(x)(wrap(v) for v in x)
    return x


def record(body, its, log):
    """Run the iterations one after the other; log gets one [iteration, reads, writes] for each."""
    global LOG
    body_cells = [c for c in (body.__closure__ or ())]
    kept = []
    for c in body_cells:
        try:
            v = c.cell_contents
        except ValueError:
            continue
        w = wrap(v)
        if w is not v:
            kept.append((c, v, w))
            c.cell_contents = w
    try:
        for i in its:
            LOG = (set(), set())
            for _ in body(i):
                pass
            log.append([int(i), LOG[0], LOG[1]])
    finally:
        LOG = None
        for c, v, w in kept:
            if c.cell_contents is w:
                c.cell_contents = v
            else:
                c.cell_contents = plain(c.cell_contents)
