"""matplotlib stand-in: keeps the data of lines and scatter points, ignores styling"""
import numpy as _np


class Any:
    """accepts everything"""

    def __init__(self, name='plt'):
        object.__setattr__(self, '_n', name)

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Any(self._n + '.' + n)

    def __setattr__(self, n, v): pass
    def __call__(self, *a, **k): return Any(self._n + '()')
    def __getitem__(self, i): return Any(self._n + '[]')
    def __setitem__(self, i, v): pass
    def __iter__(self): return iter([Any(self._n + '.0'), Any(self._n + '.1')])
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __len__(self): return 0


def _cols(x):
    from . import npx
    a = npx.mk(x)
    if a.ndim == 0:
        a = a.reshape(1)
    if a.ndim == 1:
        a = a.reshape(-1, 1)
    return [[a[i, j] for i in range(a.shape[0])] for j in range(a.shape[1])]


def field(a):
    """abscissas, ordinates and values (a row per ordinate) of a map"""
    from . import npx
    a = [npx.mk(z) for z in a[:3]]
    if len(a) < 3 or any(z.ndim > 2 for z in a) or a[2].ndim != 2:
        from .sym import Unsupported
        raise Unsupported('arguments of a map')
    x, y, c = a
    x = [x[0, j] for j in range(x.shape[1])] if x.ndim == 2 else list(x)
    y = [y[i, 0] for i in range(y.shape[0])] if y.ndim == 2 else list(y)
    return x, y, [[c[i, j] for j in range(c.shape[1])] for i in range(c.shape[0])]


def plain(a):
    """field() of concrete values"""
    a = [_np.asarray(z, float) for z in a[:3]]
    x, y, c = a
    return (x[0] if x.ndim == 2 else x).tolist(), (y[:, 0] if y.ndim == 2 else y).tolist(), c.tolist()


class Line:
    def __init__(self, x, y):
        self.x, self.y = x, y

    def get_xdata(self, orig=True): return self.x
    def get_ydata(self, orig=True): return self.y
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any('line.' + n)


class Points:
    def __init__(self, x, y, c):
        self.x, self.y, self.c = x, y, c

    def get_offsets(self): return [[a, b] for a, b in zip(self.x, self.y)]
    def get_array(self): return self.c
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any('points.' + n)


class Axes:
    def __init__(self, fig):
        self.figure = fig
        self.lines, self.collections = [], []
        self.maps, self.contours = [], []

    def get_lines(self): return self.lines

    def plot(self, *a, **k):
        new = []
        a = list(a)
        while a:
            xs = a.pop(0)
            ys = a.pop(0) if a and not isinstance(a[0], str) else None
            if a and isinstance(a[0], str):
                a.pop(0)
            if ys is None:
                ys = xs
                xs = list(range(len(ys)))
            X, Y = _cols(xs), _cols(ys)
            n = max(len(X), len(Y))
            for j in range(n):
                new.append(Line(X[j if len(X) > 1 else 0], Y[j if len(Y) > 1 else 0]))
        self.lines.extend(new)
        return new

    def scatter(self, x, y, s=None, c=None, **k):
        p = Points(_cols(x)[0], _cols(y)[0], None if c is None or isinstance(c, str) else _cols(c)[0])
        self.collections.append(p)
        return p

    def pcolormesh(self, *a, **k):
        self.maps.append(field(a))
        return Any('mesh')

    def contour(self, *a, **k):
        self.contours.append(field(a))
        return Any('contour')

    def get_figure(self, *a): return self.figure

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any('ax.' + n)


class Figure:
    def __init__(self):
        self.axes = []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self))
        return self.axes[-1]

    add_axes = add_subplot

    def gca(self, **k):
        return self.axes[-1] if self.axes else self.add_subplot()

    def subplots(self, *a, **k):
        return self.add_subplot()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any('fig.' + n)


class Plt:
    def __init__(self):
        self.fig = None

    def figure(self, *a, **k):
        self.fig = Figure()
        return self.fig

    def gcf(self):
        return self.fig or self.figure()

    def gca(self, **k):
        return self.gcf().gca()

    def subplots(self, nrows=1, ncols=1, **k):
        f = self.figure()
        if nrows == 1 and ncols == 1:
            return f, f.add_subplot()
        ax = _np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                ax[i, j] = f.add_subplot()
        return f, ax.squeeze()

    def subplot(self, *a, **k): return self.gcf().add_subplot()
    def plot(self, *a, **k): return self.gca().plot(*a, **k)
    def scatter(self, *a, **k): return self.gca().scatter(*a, **k)
    def pcolormesh(self, *a, **k): return self.gca().pcolormesh(*a, **k)
    def contour(self, *a, **k): return self.gca().contour(*a, **k)
    def close(self, *a): pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any('plt.' + n)
