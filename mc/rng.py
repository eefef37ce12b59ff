"""
The random source behind a seam.

While an environment is active, every request to numpy's (legacy or Generator) or Python's random source is answered by it.
The environment is asked for a *quantile* (scalar requests) or a *standard normal vector* (Gaussian requests); the answer
is then the exact quantile of the requested distribution, whatever primitive the code used to request it.
"""
import random as _pyrandom

import numpy as np

_real = {}
_env = None
NAMES = ['uniform', 'triangular', 'random', 'random_sample', 'ranf', 'sample', 'rand', 'multivariate_normal', 'normal',
         'standard_normal', 'randn', 'seed', 'beta', 'exponential', 'randint', 'choice',
         'shuffle', 'permutation', 'lognormal']


class Unmodelled(Exception):
    """The code used a random primitive that the seam does not model."""


def tri_quantile(a, m, b, u):
    if b == a:
        return a
    fc = (m - a) / (b - a)
    if u < fc:
        return a + (u * (b - a) * (m - a)) ** 0.5
    return b - ((1 - u) * (b - a) * (b - m)) ** 0.5


def uni_quantile(a, b, u):
    return a + u * (b - a)


class Env:
    """Answers of the random source. Subclasses override quantile() and gauss()."""

    def __init__(self):
        self.requests = []
        self.memo = {}
        self.repeats = 0

    def quantile(self, kind, params):
        return 0.5

    def gauss(self, n):
        return np.zeros(n)

    # -- primitives ----------------------------------------------------------------
    def _shaped(self, size, draw):
        if size is None:
            return draw()
        shape = (size,) if np.isscalar(size) else tuple(size)
        out = np.empty(shape)
        for i in np.ndindex(*shape):
            out[i] = draw()
        return out

    def uniform(self, low=0.0, high=1.0, size=None):
        low, high = float(low), float(high)

        def draw():
            u = self.quantile('uniform', (low, high))
            v = uni_quantile(low, high, u)
            self.requests.append(('uniform', (low, high), v))
            return v
        return self._shaped(size, draw)

    def triangular(self, left, mode, right, size=None):
        left, mode, right = float(left), float(mode), float(right)
        if left > mode:
            raise ValueError('left > mode')
        if mode > right:
            raise ValueError('mode > right')
        if left == right:
            raise ValueError('left == right')

        def draw():
            u = self.quantile('triangular', (left, mode, right))
            v = tri_quantile(left, mode, right, u)
            self.requests.append(('triangular', (left, mode, right), v))
            return v
        return self._shaped(size, draw)

    def random(self, size=None, *a, **k):
        def draw():
            u = self.quantile('random', ())
            self.requests.append(('random', (), u))
            return u
        return self._shaped(size, draw)

    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self.random(shape or None)

    def multivariate_normal(self, mean, cov, size=None, **k):
        mean = np.array(mean, dtype=float)
        cov = np.array(cov, dtype=float)
        if mean.ndim != 1 or cov.shape != (len(mean), len(mean)):
            raise ValueError('mean and cov must have same length')

        def draw():
            z = np.asarray(self.gauss(len(mean)), dtype=float)
            if np.any(z):
                s = np.sqrt(np.diag(cov))
                s[s == 0] = 1.0
                c = cov / np.outer(s, s)
                try:
                    f = s[:, None] * np.linalg.cholesky(c)
                except np.linalg.LinAlgError:
                    w, v = np.linalg.eigh(c)
                    f = s[:, None] * (v * np.sqrt(np.clip(w, 0, None)))
                v = mean + f @ z
            else:
                v = mean.copy()
            self.requests.append(('mvn', (mean, cov), v))
            return v
        if size is None:
            return draw()
        shape = (size,) if np.isscalar(size) else tuple(size)
        out = np.empty(shape + (len(mean),))
        for i in np.ndindex(*shape):
            out[i] = draw()
        return out

    def standard_normal(self, size=None, *a, **k):
        n = 1 if size is None else int(np.prod(size))
        z = np.asarray(self.gauss(n), dtype=float)
        self.requests.append(('gauss', (n,), z))
        return float(z[0]) if size is None else z.reshape(size)

    def randn(self, *shape):
        return self.standard_normal(shape or None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape or None
        return loc + scale * self.standard_normal(size)

    gauss_ = normal

    def default_rng(self, seed=None, *a, **k):
        if seed is None or isinstance(seed, Env):
            return self
        return Seeded(self, seed)

    def spawn(self, n):
        return [self] * n

    def seed(self, seed=None, *a, **k):
        """Re-seeding the global source: active.env is replaced by one that repeats what that seed gave before."""
        global _env
        root = getattr(self, 'parent', self)
        _env = root if seed is None else Seeded(root, seed)

    def _no(self, *a, **k):
        raise Unmodelled('random primitive not modelled')

    beta = exponential = choice = shuffle = permutation = lognormal = _no

    def integers(self, low, high=None, size=None, *a, **k):
        """Modelled where they can only be meant as seeds: no two are alike."""
        span = int(low if high is None else high - low)
        if span < 2 ** 15:
            raise Unmodelled('random integers from a small range')
        root = getattr(self, 'parent', self)

        def draw():
            root.serial = getattr(root, 'serial', 0) + 1
            return (0 if high is None else int(low)) + self._again_int(root.serial) % span
        return draw() if size is None else np.array([draw() for _ in range(int(np.prod(size)))], dtype=np.int64).reshape(size)

    randint = integers

    def _again_int(self, n):
        return n * 7919


class Seeded(Env):
    """A generator with an explicit seed: like a real one, it repeats itself when made again with the same seed."""

    def __init__(self, parent, seed):
        self.parent, self.key, self.count = parent, repr(seed), 0
        self.requests = parent.requests

    def _again(self, kind, fresh):
        self.count += 1
        key = (self.key, self.count, kind)
        if key in self.parent.memo:
            self.parent.repeats += 1
        else:
            self.parent.memo[key] = fresh()
        return self.parent.memo[key]

    def quantile(self, kind, params):
        return self._again('q', lambda: self.parent.quantile(kind, params))

    def gauss(self, n):
        return self._again('g%d' % n, lambda: self.parent.gauss(n))

    def _again_int(self, n):
        return self._again('i', lambda: n * 7919)


def _key(seed):
    """What makes two generators of numpy repeat one another: None for a fresh one."""
    if seed is None:
        return None
    if hasattr(seed, 'mc_key'):
        return seed.mc_key
    if isinstance(seed, np.random.SeedSequence):
        return (repr(seed.entropy), seed.spawn_key)
    return repr(np.asarray(seed).tolist())


def _current(obj):
    """What answers for this generator: the active environment (for a seeded one, a source in it that repeats itself), or None."""
    if _env is None:
        return None
    root = getattr(_env, 'parent', _env)
    if obj.mc_key is None:
        return root
    if getattr(obj, 'mc_root', None) is not root:
        obj.mc_root, obj.mc_env = root, Seeded(root, obj.mc_key)
    return obj.mc_env


METHODS = ['uniform', 'triangular', 'random', 'random_sample', 'rand', 'randn', 'standard_normal', 'normal', 'multivariate_normal', 'integers', 'randint', 'beta', 'exponential', 'choice', 'shuffle', 'permutation', 'lognormal']


def _dispatching(base, names, rename=None):
    def make(n):
        def f(self, *a, **k):
            e = _current(self)
            return getattr(base, n)(self, *a, **k) if e is None else getattr(e, (rename or {}).get(n, n))(*a, **k)
        f.__name__ = n
        return f
    return {n: make(n) for n in names if hasattr(base, n)}


def _install_classes():
    """Generators made by class, or made before an environment became active, ask the active environment too."""
    for n in ('PCG64', 'PCG64DXSM', 'MT19937', 'Philox', 'SFC64'):
        base = getattr(np.random, n, None)
        if base is not None:
            def init(self, seed=None, *a, _base=base, **k):
                _base.__init__(self, seed, *a, **k)
                self.mc_key = _key(seed)
            setattr(np.random, n, type(n, (base,), {'__init__': init}))
    gen, rs = np.random.Generator, np.random.RandomState
    body = _dispatching(gen, METHODS)

    def ginit(self, bit):
        gen.__init__(self, bit)
        self.mc_key = getattr(bit, 'mc_key', 'bit generator %d' % id(bit))
    body['__init__'] = ginit
    Gen = np.random.Generator = type('Generator', (gen,), body)
    body = _dispatching(rs, METHODS)

    def rinit(self, seed=None):
        rs.__init__(self, seed)
        self.mc_key = getattr(seed, 'mc_key', None) if isinstance(seed, np.random.BitGenerator) else _key(seed)
    body['__init__'] = rinit
    np.random.RandomState = type('RandomState', (rs,), body)
    np.random.mtrand._rand = np.random.RandomState()

    def default_rng(seed=None):
        if isinstance(seed, gen):
            return seed
        return Gen(seed if isinstance(seed, np.random.BitGenerator) else np.random.PCG64(seed))
    np.random.default_rng = default_rng
    base = _pyrandom.Random
    rename = {'gauss': 'normal', 'normalvariate': 'normal', 'randrange': 'integers'}
    body = _dispatching(base, ['uniform', 'random', 'gauss', 'normalvariate', 'randrange', 'choice', 'shuffle'], rename)

    def pinit(self, seed=None):
        base.__init__(self, seed)
        self.mc_key = None if seed is None else repr(seed)

    def tri(self, low=0.0, high=1.0, mode=None):
        e = _current(self)
        return base.triangular(self, low, high, mode) if e is None else e.triangular(low, (low + high) / 2 if mode is None else mode, high)
    body.update(__init__=pinit, triangular=tri)
    _pyrandom.Random = type('Random', (base,), body)


def install():
    _install_classes()
    for n in NAMES:
        real = getattr(np.random, n)
        _real[n] = real

        def make(n, real):
            def f(*a, **k):
                if _env is None:
                    return real(*a, **k)
                return getattr(_env, n)(*a, **k)
            f.__name__ = n
            return f
        setattr(np.random, n, make(n, real))
    for n, m in [('uniform', 'uniform'), ('random', 'random'), ('gauss', 'normal'), ('normalvariate', 'normal')]:
        real = getattr(_pyrandom, n)

        def make2(n, m, real):
            def f(*a, **k):
                if _env is None:
                    return real(*a, **k)
                return getattr(_env, m)(*a, **k)
            return f
        setattr(_pyrandom, n, make2(n, m, real))
    real_tri = _pyrandom.triangular

    def tri(low=0.0, high=1.0, mode=None):
        if _env is None:
            return real_tri(low, high, mode)
        return _env.triangular(low, (low + high) / 2 if mode is None else mode, high)
    _pyrandom.triangular = tri


class active:
    """Context manager: all random requests go to env."""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        global _env
        self._old = _env
        _env = self.env
        return self.env

    def __exit__(self, *a):
        global _env
        _env = self._old
        return False
