"""Library classes written out for the analysis: code under analysis that uses contextlib is interpreted over these."""


class ExitStack:
    def __init__(self):
        self._exits = []

    def __enter__(self):
        return self

    def __exit__(self, kind, error, trace):
        self.close()

    def callback(self, function, *args, **kwargs):
        self._exits.append(lambda: function(*args, **kwargs))
        return function

    def enter_context(self, manager):
        value = manager.__enter__()
        self._exits.append(lambda: manager.__exit__(None, None, None))
        return value

    def push(self, manager):
        self._exits.append(lambda: manager.__exit__(None, None, None))
        return manager

    def pop_all(self):
        new = ExitStack()
        new._exits, self._exits = self._exits, []
        return new

    def close(self):
        while self._exits:
            self._exits.pop()()


class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, kind, error, trace):
        self.thing.close()


class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, kind, error, trace):
        pass


def nlargest(n, iterable, key=None):
    return sorted(iterable, key=key, reverse=True)[:max(n, 0)]


def nsmallest(n, iterable, key=None):
    return sorted(iterable, key=key)[:max(n, 0)]


def bisect_left(a, x):
    return sum(1 for y in a if y < x)


def bisect_right(a, x):
    return sum(1 for y in a if y <= x)


bisect = bisect_right


def insort_right(a, x):
    a.insert(bisect_right(a, x), x)


def insort_left(a, x):
    a.insert(bisect_left(a, x), x)


insort = insort_right


def filterfalse(function, iterable):
    for x in iterable:
        if not (x if function is None else function(x)):
            yield x


def takewhile(function, iterable):
    for x in iterable:
        if not function(x):
            break
        yield x


def dropwhile(function, iterable):
    dropping = True
    for x in iterable:
        if dropping and function(x):
            continue
        dropping = False
        yield x


def compress(data, selectors):
    for x, s in zip(data, selectors):
        if s:
            yield x
