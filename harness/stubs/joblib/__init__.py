"""Stand-in for joblib: tasks run one at a time, in an order chosen by ORDER (each order is a possible schedule)."""
import functools
import random

import numba as _numba

ORDER = {"policy": "seq", "rnd": random.Random(0), "calls": [], "log": []}


def set_order(policy, seed=0):
    ORDER["policy"], ORDER["rnd"] = policy, random.Random(seed)


def delayed(function):
    @functools.wraps(function)
    def f(*args, **kwargs):
        return function, args, kwargs
    return f


class Parallel:
    def __init__(self, n_jobs=None, backend=None, verbose=0, timeout=None, pre_dispatch="2 * n_jobs", batch_size="auto",
                 temp_folder=None, max_nbytes="1M", mmap_mode="r", prefer=None, require=None, return_as="list"):
        if n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        self.n_jobs = n_jobs

    def __call__(self, iterable):
        ORDER["calls"].append(self.n_jobs)
        tasks = list(iterable)
        order = list(range(len(tasks)))
        if self.n_jobs not in (None, 1):
            if ORDER["policy"] == "rev":
                order.reverse()
            elif ORDER["policy"] == "perm":
                ORDER["rnd"].shuffle(order)
        out = [None] * len(tasks)
        log = {"workers": self.n_jobs, "threads": [[] for _ in tasks]}
        ORDER["log"].append(log)
        mine, seen = _numba._THREADS[0], _numba.KERNELS
        for i in order:
            f, a, k = tasks[i]
            if self.n_jobs not in (None, 1):     # a worker: numba's number of threads is local to the thread
                _numba._THREADS[0] = _numba.config.NUMBA_NUM_THREADS
            _numba.KERNELS = log["threads"][i]
            try:
                out[i] = f(*a, **k)
            finally:
                _numba.KERNELS = seen
                if self.n_jobs not in (None, 1):
                    _numba._THREADS[0] = mine
        return out

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def cpu_count(only_physical_cores=False):
    return 8


def effective_n_jobs(n=-1):
    return 8 if n is None or n < 0 else n


class Memory:
    def __init__(self, *a, **k):
        pass

    def cache(self, f=None, **k):
        return f
