"""What the code under test draws, read from the figures it leaves and from the data handed to the contouring methods of the axes."""
import numpy as np


class Recorder:
    """While active, every contourf/contour call on any axes is recorded as (kind, {(x, y): z}, levels) with its axes."""

    def __enter__(self):
        import matplotlib.axes
        self.calls = []
        self.saved = {}
        for name in ('contourf', 'contour'):
            real = getattr(matplotlib.axes.Axes, name)
            self.saved[name] = real

            def make(name, real):
                def f(ax, *a, **k):
                    self.calls.append((name, ax, [np.array(x, dtype=float, copy=True) if not isinstance(x, str) else x for x in a], dict(k)))
                    return real(ax, *a, **k)
                return f
            setattr(matplotlib.axes.Axes, name, make(name, real))
        return self

    def __exit__(self, *x):
        import matplotlib.axes
        for name, real in self.saved.items():
            setattr(matplotlib.axes.Axes, name, real)
        return False

    def maps(self, kind='contourf'):
        """[(X, Y, Z, levels)] with X, Y of the shape of Z."""
        out = []
        for name, ax, a, k in self.calls:
            if name != kind:
                continue
            if len(a) >= 3:
                x, y, z = a[:3]
                rest = a[3:]
            else:
                z = a[0]
                rest = a[1:]
                x, y = np.arange(z.shape[1], dtype=float), np.arange(z.shape[0], dtype=float)
            if x.ndim == 1:
                if x.shape[0] != z.shape[1] or y.shape[0] != z.shape[0]:
                    raise AssertionError('axes of %d and %d for a grid of shape %r' % (len(x), len(y), z.shape))
                x, y = np.meshgrid(x, y)
            levels = k.get('levels', rest[0] if rest else None)
            out.append((x, y, z, levels))
        return out


def artists(ax):
    """The point sets of all markers on the axes: [[(x, y), ...], ...]."""
    out = []
    for l in ax.lines:
        m = l.get_marker()
        if m not in (None, 'None', '', ' '):
            x, y = l.get_data()
            out.append([(float(a), float(b)) for a, b in zip(np.atleast_1d(x), np.atleast_1d(y))])
    for c in ax.collections:
        if type(c).__name__ == 'PathCollection':
            out.append([(float(a), float(b)) for a, b in np.asarray(c.get_offsets())])
    return out


def enclosed(v):
    x, y = v[:, 0] - v[0, 0], v[:, 1] - v[0, 1]
    return abs(float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))) / 2


def polygons(ax):
    """Filled polygons: the bounding box, and the area enclosed."""
    out = []
    for p in ax.patches:
        if hasattr(p, 'get_xy') and type(p).__name__ in ('Polygon', 'Rectangle'):
            v = p.get_path().vertices
            v = p.get_patch_transform().transform(v)
            out.append((float(v[:, 0].min()), float(v[:, 0].max()), float(v[:, 1].min()), float(v[:, 1].max()), enclosed(v)))
    return out
