"""A stand-in for multiprocessing.Pool whose schedule is a choice of the explorer: tasks are
handed to `processes` workers in order; at each step one of the running tasks is chosen to
finish. imap/map results come in task order, imap_unordered in completion order."""
import pickle


class Async:
    def __init__(self, pool, task):
        self.pool, self.task = pool, task

    def ready(self):
        return self.task in self.pool.done

    def successful(self):
        return self.ready()

    def wait(self, timeout=None):
        while self.task not in self.pool.done:
            self.pool.step()

    def get(self, timeout=None):
        self.wait()
        return self.pool.result(self.task)


class FakePool:
    chooser = None  # None: first in, first out
    cache = {}
    log = []

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if processes is None:
            processes = 4
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.processes = processes
        self.tasks = []  # (func, chunk, star, callback)
        self.running, self.waiting, self.done = [], [], {}
        self.closed = False
        if initializer:
            initializer(*initargs)

    # ---- life cycle
    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True
        self.waiting, self.running = [], []

    def join(self):
        while self.running or self.waiting:
            self.step()

    # ---- scheduling
    def submit(self, func, chunk, star=False, callback=None):
        if self.closed:
            raise ValueError("Pool not running")
        self.tasks.append((func, pickle.loads(pickle.dumps(list(chunk))), star, callback))
        self.waiting.append(len(self.tasks) - 1)
        return len(self.tasks) - 1

    def step(self):
        while self.waiting and len(self.running) < self.processes:
            self.running.append(self.waiting.pop(0))
        n = len(self.running)
        c = type(self).chooser
        t = self.running.pop(c.choose(n) if c is not None and n > 1 else 0)
        type(self).log.append(t)
        func, chunk, star, callback = self.tasks[t]
        try:
            self.done[t] = (True, [self.call(func, x, star) for x in chunk])
        except Exception as e:
            self.done[t] = (False, e)
        if callback and self.done[t][0]:
            callback(self.done[t][1][0])
        return t

    def call(self, func, x, star):
        key = (getattr(func, "__module__", None), getattr(func, "__qualname__", repr(func)), star,
               pickle.dumps(x))
        if key not in self.cache:
            self.cache[key] = func(*x) if star else func(x)
        return self.cache[key]

    def result(self, t):
        ok, res = self.done[t]
        if not ok:
            raise res
        return res

    def chunks(self, iterable, chunksize):
        items = list(iterable)
        return [items[i:i + chunksize] for i in range(0, len(items), max(1, chunksize))]

    # ---- interface
    def imap(self, func, iterable, chunksize=1):
        ts = [self.submit(func, c) for c in self.chunks(iterable, chunksize)]

        def gen():
            for t in ts:
                while t not in self.done:
                    self.step()
                yield from self.result(t)

        return gen()

    def imap_unordered(self, func, iterable, chunksize=1):
        ts = {self.submit(func, c) for c in self.chunks(iterable, chunksize)}

        def gen():
            left = set(ts)
            while left:
                t = self.step()
                if t in left:
                    left.discard(t)
                    yield from self.result(t)

        return gen()

    def map(self, func, iterable, chunksize=None, star=False):
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.processes * 4)
            chunksize += bool(extra)
        ts = [self.submit(func, c, star) for c in self.chunks(items, max(1, chunksize))]
        for t in ts:
            while t not in self.done:
                self.step()
        return [x for t in ts for x in self.result(t)]

    def starmap(self, func, iterable, chunksize=None):
        return self.map(func, iterable, chunksize, star=True)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        pool = self

        class R(Async):
            def get(self, timeout=None):
                return pool.map(func, items, chunksize)

            def wait(self, timeout=None):
                pass

        items = list(iterable)
        return R(self, None)

    def apply(self, func, args=(), kwds={}):
        return func(*args, **kwds)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        assert not kwds
        return Async1(self, self.submit(func, [tuple(args)], True, callback))


class Async1(Async):
    def get(self, timeout=None):
        return super().get()[0]
