"""Stand-in for matplotlib.figure, read by the analyser, never executed: a figure keeps what was drawn on it"""
import io


class Line:
    def __init__(self, xs, ys, label):
        self.xs = tuple(xs)
        self.ys = tuple(ys)
        self.label = label

    def set_label(self, label):
        self.label = label


class Axes:
    def __init__(self, figure):
        self.figure = figure
        self.bars = []
        self.lines = []
        self.named = False

    def hist(self, x, bins=None, range=None, density=False, weights=None, cumulative=False, **_):
        total = 0
        if weights is None:
            weights = [1 for _ in x]
        for w in weights:
            total += w
        running = 0
        for low, high in zip(bins[:-1], bins[1:]):
            height = 0
            for value, w in zip(x, weights):
                if low <= value < high or (value == high and high == bins[-1]):
                    height += w
            if density:
                height = height / (total * (high - low))
            if cumulative:
                running += height
                height = running
            self.bars.append((low, high, height))

    def bar(self, x, height, width=0.8, bottom=None, align="center", **_):
        for centre, h in zip(x, height):
            low = centre if align == "edge" else centre - width / 2
            self.bars.append((low, low + width, h))

    def stairs(self, values, edges, **_):
        for low, high, h in zip(edges[:-1], edges[1:], values):
            self.bars.append((low, high, h))

    def plot(self, x, y, *_, label=None, **__):
        line = Line(x, y, label)
        self.lines.append(line)
        return [line]

    def axvline(self, x=0, ymin=0, ymax=1, *_, label=None, **__):
        line = Line([x, x], [ymin, ymax], label)
        self.lines.append(line)
        return line

    def vlines(self, x, ymin, ymax, *_, label=None, **__):
        line = Line([x, x], [ymin, ymax], label)
        self.lines.append(line)
        return line

    def legend(self, *args, **_):
        self.named = True
        if len(args) == 1:
            for line, label in zip(self.lines, args[0]):
                line.label = label
        if len(args) == 2:
            for line, label in zip(args[0], args[1]):
                line.label = label

    def clear(self):
        self.bars = []
        self.lines = []
        self.named = False

    def cla(self):
        self.clear()

    def get_figure(self):
        return self.figure

    def grid(self, *_, **__):
        return None

    def set_ylabel(self, *_, **__):
        return None

    def set_xlabel(self, *_, **__):
        return None

    def set_title(self, *_, **__):
        return None

    def set(self, *_, **__):
        return None

    def margins(self, *_, **__):
        return None

    def picture(self):
        return (tuple(self.bars), tuple([(line.label, line.xs, line.ys) for line in self.lines]), self.named)


class Figure:
    def __init__(self, *_, **__):
        self.axes = []
        self.number = 0

    def add_subplot(self, *_, **__):
        axis = Axes(self)
        self.axes.append(axis)
        return axis

    def add_axes(self, *_, **__):
        return self.add_subplot()

    def subplots(self, *_, **__):
        return self.add_subplot()

    def gca(self):
        if not self.axes:
            return self.add_subplot()
        return self.axes[-1]

    def savefig(self, target, *_, **__):
        picture = tuple([axis.picture() for axis in self.axes])
        if isinstance(target, str):
            io.FILES[target] = io.BytesIO([picture])
        else:
            target.write(picture)

    def clear(self, *_, **__):
        self.axes = []

    def clf(self, *_, **__):
        self.axes = []

    def tight_layout(self, *_, **__):
        return None

    def set_size_inches(self, *_, **__):
        return None
