"""In-process stand-ins for the process pools used by the code under test.

A task is pickled and unpickled before it is run and so is its result, as with a real
worker process; the pool is otherwise a plain loop in the calling process.  This keeps
each generated case deterministic (seeded) and cheap.  Property C26 runs the same code
with the real pools.
"""
import concurrent.futures
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import pickle


def _ship(obj):
    return pickle.loads(pickle.dumps(obj))


def _call(func, args, kwargs=None):
    func, args, kwargs = _ship((func, args, kwargs or {}))
    return _ship(func(*args, **kwargs))


class _Done:
    def __init__(self, func, args, kwargs=None, callback=None, error_callback=None):
        self._err = None
        self._val = None
        try:
            self._val = _call(func, args, kwargs)
            if callback:
                callback(self._val)
        except Exception as e:  # noqa
            self._err = e
            if error_callback:
                error_callback(e)

    def get(self, timeout=None):
        if self._err is not None:
            raise self._err
        return self._val

    def wait(self, timeout=None):
        return None

    def ready(self):
        return True

    def successful(self):
        return self._err is None


class SerialPool:
    """multiprocessing.Pool"""

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if initializer is not None:
            initializer(*initargs)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def map(self, func, iterable, chunksize=None):
        return [_call(func, (x,)) for x in list(iterable)]

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    def imap_unordered(self, func, iterable, chunksize=1):
        # in no particular order (deterministic: not drawn from the generators in use)
        res = self.map(func, iterable)
        return iter(res[1::2] + res[::2][::-1])

    def starmap(self, func, iterable, chunksize=None):
        return [_call(func, tuple(x)) for x in list(iterable)]

    def apply(self, func, args=(), kwds={}):
        return _call(func, tuple(args), kwds)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return _Done(func, tuple(args), kwds, callback, error_callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Done(_MapAll(func), (list(iterable),), {}, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Done(_StarAll(func), (list(iterable),), {}, callback, error_callback)

    def close(self):
        pass

    def terminate(self):
        pass

    def join(self):
        pass


class _MapAll:
    def __init__(self, f):
        self.f = f

    def __call__(self, xs):
        return [self.f(x) for x in xs]


class _StarAll(_MapAll):
    def __call__(self, xs):
        return [self.f(*x) for x in xs]


class SerialExecutor(concurrent.futures.Executor):
    """concurrent.futures.ProcessPoolExecutor"""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **k):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        if initializer is not None:
            initializer(*initargs)

    def submit(self, fn, /, *args, **kwargs):
        f = concurrent.futures.Future()
        try:
            f.set_result(_call(fn, args, kwargs))
        except Exception as e:  # noqa
            f.set_exception(e)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        results = [_call(fn, args) for args in zip(*iterables)]
        return iter(results)

    def shutdown(self, wait=True, *, cancel_futures=False):
        pass


def install():
    import concurrent.futures.process  # force real module in before patching

    concurrent.futures.ProcessPoolExecutor = SerialExecutor
    concurrent.futures.process.ProcessPoolExecutor = SerialExecutor
    multiprocessing.Pool = SerialPool
    multiprocessing.pool.Pool = SerialPool

    def _pool(self, *a, **k):
        return SerialPool(*a, **k)

    multiprocessing.context.BaseContext.Pool = _pool
