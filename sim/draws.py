"""The random seam: every public draw of random.* and numpy.random.* comes from one seeded stream
into which boundary values and repeats are injected."""
import random, numpy as np
from core import fired, STAT

NEAR1 = 1 - 2.0**-53
TINY = 2.0**-53


class Draws:
    """uni / nrm: values injected with probability p; 'rep' repeats the value before.
    limit: at most so many injections; gap: at least so many draws between two injections; streak: the stream sticks at 0 for a while."""
    def __init__(self, seed, p=0.0, uni=(), nrm=(), limit=10**9, gap=0, streak=None):
        self.r = random.Random(seed)
        self.f = random.Random(str(seed) + 'f')
        self.p, self.uni, self.nrm, self.limit, self.gap = p, list(uni), list(nrm), limit, gap
        self.u, self.n = [], []
        self.since = 10**9
        self.streak = streak            # [draw at which the stream sticks at zero, for how many uniform draws]

    def _inject(self, values, prev):
        self.since += 1
        if values and self.limit > 0 and self.since > self.gap and self.f.random() < self.p:
            v = self.f.choice(values)
            if v == 'rep':
                if not prev:
                    return None
                v = prev[-1]
            self.limit -= 1
            self.since = 0
            fired('draw_%s' % ('repeat' if prev and v == prev[-1] else {NEAR1: 'just_below_1', TINY: 'smallest'}.get(v, v)))
            return v
        return None

    def uniform(self):
        x = self.r.random()
        v = self._inject(self.uni, self.u)
        x = x if v is None else v
        if self.streak and 0 <= len(self.u) - self.streak[0] < self.streak[1]:
            x = 0.0
            if len(self.u) == self.streak[0]:
                fired('draw_stuck')
        self.u.append(x)
        STAT['draws'] += 1
        return x

    def normal(self):
        x = self.r.gauss(0, 1)
        v = self._inject(self.nrm, self.n)
        x = x if v is None else v
        self.n.append(x)
        STAT['draws'] += 1
        return x

    def many(self, f, size):
        if size is None:
            return f()
        a = np.empty(size)
        fl = a.reshape(-1)
        for i in range(fl.size):
            fl[i] = f()
        return a

    def __enter__(self):
        U, N, M = self.uniform, self.normal, self.many
        nr = np.random

        def scale(f, a, b, size):
            if size is None and (np.ndim(a) or np.ndim(b)):
                size = np.broadcast(a, b).shape
            return a + b * M(f, size)
        py = {'random': lambda: U(), 'uniform': lambda a, b: a + (b - a) * U(), 'gauss': lambda mu=0., s=1.: mu + s * N(),
              'normalvariate': lambda mu=0., s=1.: mu + s * N()}
        np_ = {'random': lambda size=None: M(U, size), 'random_sample': lambda size=None: M(U, size), 'sample': lambda size=None: M(U, size),
               'ranf': lambda size=None: M(U, size), 'rand': lambda *d: M(U, d or None), 'randn': lambda *d: M(N, d or None),
               'standard_normal': lambda size=None: M(N, size),
               'uniform': lambda low=0., high=1., size=None: scale(U, low, np.subtract(high, low) if np.ndim(low) or np.ndim(high) else high - low, size),
               'normal': lambda loc=0., scale_=1., size=None, **k: scale(N, loc, k.get('scale', scale_), size)}
        self.saved = [(random, k, getattr(random, k)) for k in py] + [(nr, k, getattr(nr, k)) for k in np_]
        for k, v in py.items():
            setattr(random, k, v)
        for k, v in np_.items():
            setattr(nr, k, v)
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)
        return False
