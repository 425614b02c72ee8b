"""A stand-in for the multiprocessing pool: same interface, in-process, tasks and results cross the
'process boundary' through pickle, chunks are fed, executed and delivered in a generated order."""
import contextlib
import itertools
import pickle
import random


class FakePool:
    def __init__(self, *a, seed=0, lag=3, processes=None, **kw):
        self.rng = random.Random(seed)
        self.lag = lag
        self.chunks_run = 0
        self.tasks_run = 0
        self.reordered = False

    # -- the unordered map: feeding, running and delivering interleave
    def imap_unordered(self, func, iterable, chunksize=1):
        it = iter(iterable)
        done_feeding = False
        waiting = []  # (serial, pickled chunk)
        finished = []  # (serial, result)
        buf, serial, last = [], 0, -1
        while True:
            # the feeder may run ahead of the results by an arbitrary amount
            while not done_feeding and (not waiting and not finished or
                                        (len(waiting) < self.lag and self.rng.random() < 0.7)):
                try:
                    buf.append(next(it))
                except StopIteration:
                    done_feeding = True
                if buf and (len(buf) >= chunksize or done_feeding):
                    waiting.append((serial, pickle.dumps((func, buf))))
                    serial += 1
                    buf = []
            if waiting and (not finished or self.rng.random() < 0.6):
                s, blob = waiting.pop(self.rng.randrange(len(waiting)))
                f, tasks = pickle.loads(blob)
                out = [f(x) for x in tasks]
                self.chunks_run += 1
                self.tasks_run += len(tasks)
                finished += [(s, r) for r in pickle.loads(pickle.dumps(out))]
                continue
            if finished:
                s, r = finished.pop(self.rng.randrange(len(finished)))
                if s < last:
                    self.reordered = True
                last = s
                yield r
                continue
            if done_feeding and not waiting:
                return

    def imap(self, func, iterable, chunksize=1):
        for x in iterable:
            f, x = pickle.loads(pickle.dumps((func, x)))
            yield pickle.loads(pickle.dumps(f(x)))

    def map(self, func, iterable, chunksize=None):
        return list(self.imap(func, list(iterable)))

    def starmap(self, func, iterable, chunksize=None):
        return [pickle.loads(pickle.dumps(func(*pickle.loads(pickle.dumps(x))))) for x in iterable]

    def apply_async(self, func, args=(), kwds=None, callback=None, **kw):
        r = func(*pickle.loads(pickle.dumps(args)), **(kwds or {}))
        if callback:
            callback(r)

        class R:
            def get(self, timeout=None):
                return r

            def ready(self):
                return True

            def wait(self, timeout=None):
                pass

        return R()

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@contextlib.contextmanager
def fake_pools(seed=0, lag=3):
    """every pool causy creates inside is a FakePool with its own schedule"""
    import multiprocessing

    import torch.multiprocessing as tmp

    made = []
    count = itertools.count()

    def make(*a, **kw):
        p = FakePool(seed=seed * 1009 + next(count), lag=lag)
        made.append(p)
        return p

    saved = [(tmp, "Pool", tmp.Pool), (multiprocessing, "Pool", multiprocessing.Pool),
             (tmp, "set_start_method", tmp.set_start_method)]
    try:
        tmp.Pool = make
        multiprocessing.Pool = make
        tmp.set_start_method = lambda *a, **k: None
        yield made
    finally:
        for mod, name, v in saved:
            setattr(mod, name, v)
