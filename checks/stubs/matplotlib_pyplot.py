"""Stand-in for matplotlib.pyplot, read by the analyser, never executed: the table of open figures"""
from matplotlib.figure import Axes, Figure

OPEN = []
COUNT = [0]


def figure(num=None, clear=False, **_):
    if num is not None:
        for f in OPEN:
            if f.number == num or f is num:
                OPEN.remove(f)
                OPEN.append(f)
                if clear:
                    f.clear()
                return f
    f = Figure()
    COUNT[0] += 1
    f.number = COUNT[0] if num is None else num
    OPEN.append(f)
    return f


def subplots(*_, num=None, clear=False, **__):
    f = figure(num, clear)
    return f, f.add_subplot()


def gcf():
    if not OPEN:
        return figure()
    return OPEN[-1]


def gca():
    return gcf().gca()


def axes(*_, **__):
    return gcf().add_subplot()


def subplot(*_, **__):
    return gcf().add_subplot()


def hist(*args, **kwargs):
    return gca().hist(*args, **kwargs)


def bar(*args, **kwargs):
    return gca().bar(*args, **kwargs)


def plot(*args, **kwargs):
    return gca().plot(*args, **kwargs)


def axvline(*args, **kwargs):
    return gca().axvline(*args, **kwargs)


def legend(*args, **kwargs):
    return gca().legend(*args, **kwargs)


def savefig(*args, **kwargs):
    return gcf().savefig(*args, **kwargs)


def grid(*_, **__):
    return None


def xlabel(*_, **__):
    return None


def ylabel(*_, **__):
    return None


def title(*_, **__):
    return None


def tight_layout(*_, **__):
    return None


def clf():
    gcf().clear()


def cla():
    gca().clear()


def get_fignums():
    return [f.number for f in OPEN]


def fignum_exists(num):
    return num in get_fignums()


def close(fig=None):
    if fig is None:
        if OPEN:
            OPEN.pop()
    elif fig == "all":
        OPEN.clear()
    else:
        for f in list(OPEN):
            if f is fig or f.number == fig:
                OPEN.remove(f)


def switch_backend(*_):
    return None
