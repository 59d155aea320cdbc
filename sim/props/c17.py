"""C17: sampling stays within bounds and on the distribution for every random stream."""
import json, math
import numpy as np
from core import *
import core
from draws import Draws, NEAR1, TINY


def dens(r):
    k = r.choice(['gauss', 'gauss', 'wave', 'exp', 'line', 'flat', 'power', 'bimodal', 'zero'])
    return {'k': k, 'q': round(r.uniform(.05, .95), 4), 'u': round(r.uniform(0, 1), 4), 'args': r.choice([None, None, 'tuple', 'scalar', 'list', 'shape', 'shape'])}


def interval(r):
    a = r.choice([0, 0.0, -1, -1.0, -3, 5, 100, 1e-6, -1e3, r.uniform(-10, 10)])
    return [a, a + r.choice([1, 2, .5, 1e-3, 10, 1e4, r.uniform(.1, 10)])]


def gen(r, i, tier):
    ops = []
    for _ in range(r.randint(2, 9)):
        k = choose(r, [(6, 'sample'), (1, 'again'), (.8, 'cdf'), (.7, 'noise'), (.5, 'bad'), (.5, 'fail')])
        o = {'k': k, 's': r.randint(0, 10**9), 'p': r.choice([0.0, .1, .3, .9]), 'd': dens(r), 'ab': interval(r),
             'n': choose(r, [(4, r.randint(1, 60)), (1, 1), (1, r.randint(61, 700)), (.1, r.choice([1024, 5000, 20000]))]), 'wn': choose(r, [(2, None), (3, r.randint(20, 400)), (2, r.randint(400, 4000))]),
             'm': r.choice(['random', 'random', 'halton', None]), 'inv': r.choice(['interpolate', 'numeric', 'interpolate', None])}
        if k == 'bad':
            o['what'] = r.choice(['method', 'invert', 'callable'])
        before = [p for p in ops if p['k'] in ('sample', 'again')]
        if before and r.random() < .35:
            # the same callable again: other bounds within the first, another grid, other arguments
            p = r.choice(before)
            (a, b), x, y = p['ab'], frac(r) * .6, .3 + .7 * frac(r)
            o['use'] = p.get('use', ops.index(p))
            if not (o['k'] == 'bad' and o['what'] == 'callable'):
                o['d'] = dict(p['d'])
                o['ab'] = r.choice([[a, b], [a, b], [a, a + y * (b - a)], [a + x * (b - a), b]])
                o['wn'] = r.choice([p['wn'], p['wn'], o['wn']])
                if o['d']['args'] == 'shape' and r.random() < .7:
                    o['d']['q'], o['d']['u'] = round(r.uniform(.05, .95), 4), round(r.uniform(0, 1), 4)
            else:
                del o['use']
        ops.append(o)
    return {'ops': ops}


def density(d, a, b):
    """-> (callable, args) : smooth and positive on [a, b], of unit area"""
    w, q, u = b - a, d['q'], d['u']
    if d['args'] == 'shape':
        def shaped(x, q, u):
            f, _ = density(dict(d, args=None, q=q, u=u), a, b)
            return f(x)
        return shaped, (q, u)
    base = {'gauss': lambda x: np.exp(-.5 * ((x - a - u * w) / (w * (.15 + q)))**2), 'wave': lambda x: 1 + .9 * q * np.sin((2 + 8 * u) * (x - a) / w),
            'exp': lambda x: np.exp(-5 * q * (x - a) / w), 'line': lambda x: .1 + q * (x - a) / w, 'flat': lambda x: np.ones_like(x),
            'power': lambda x: .05 + ((x - a) / w)**(1 + int(4 * u)), 'bimodal': lambda x: .1 + np.exp(-.5 * ((x - a - .25 * w) / (.1 * w))**2) + q * np.exp(-.5 * ((x - a - .7 * w) / (.08 * w))**2),
            'zero': lambda x: .02 + (1 - ((x - a) / w - .5)**2 * 3.9)}[d['k']]
    g = np.linspace(a, b, 4001)
    area = np.trapz(base(g), g)
    if d['args'] is None:
        return (lambda x: base(x) / area), None
    if d['args'] == 'scalar':
        return (lambda x, s: base(x) / s), float(area)
    f = lambda x, s, t: base(x) / s * t
    return f, [float(area), 1.0] if d['args'] == 'list' else (float(area), 1.0)


def vdc(n):
    out = []
    for i in range(n):
        f, v = .5, 0.0
        while i:
            v += f * (i & 1)
            i >>= 1
            f /= 2
        out.append(v)
    return np.array(out)


def check(why, st, v, o, f, args, y):
    a, b = o['ab']
    if st != 'ok':
        raise Violation('raises', '%s raises %r' % (why, v))
    v = np.asarray(v)
    if v.shape != (o['n'],):
        raise Violation('count', '%s: shape %s, %d values requested' % (why, v.shape, o['n']))
    if not np.isfinite(v).all():
        raise Violation('finite', '%s: %r' % (why, v[~np.isfinite(v)][:3]))
    slack = 4e-16 * max(abs(a), abs(b))
    if (v < a - slack).any() or (v > b + slack).any():
        q = int(np.argmax(np.maximum(a - v, v - b)))
        raise Violation('bounds', '%s: value %r is outside [%r, %r]' % (why, v[q], a, b))
    if y is None:
        return
    if len(y) != o['n']:
        raise Violation('draws', '%s: %d draws for %d values' % (why, len(y), o['n']))
    wn = o['wn'] or 10000
    fine = max(20001, 8 * wn)
    g = np.linspace(a, b, fine)
    w = f(g) if args is None else f(g, args) if isinstance(args, float) else f(g, *args)
    c = np.concatenate([[0], np.cumsum((w[1:] + w[:-1]) / 2)])
    c /= c[-1]
    want = np.interp(np.sort(y), c, g)
    dx = (b - a) / (wn - 1)
    # the discrete CDF is off by at most one and a half grid weights; translate to x by the local density
    wmax = w.max()
    loc = np.interp(want, g, w)
    lo = np.minimum(loc, np.minimum(np.interp(want - 3 * dx, g, w), np.interp(want + 3 * dx, g, w)))
    tol = dx * (2 + 1.5 * wmax / lo)
    got = np.sort(v)
    bad = np.abs(got - want) > tol
    if bad.any():
        q = int(np.argmax(np.abs(got - want) / tol))
        raise Violation('off-distribution', '%s: the draw %r gives %r, the distribution gives %r (grid step %r)' % (why, np.sort(y)[q], got[q], want[q], dx))


def run(case):
    from rsbeams.rsstats import sample as S
    ev = []
    halton, made = {}, {}
    for k_, o in enumerate(case['ops']):
        k = o['k']
        STAT['runs'] += 1
        a, b = o['ab']
        if 'use' in o and o['use'] in made:
            f, args = made[o['use']]
            if o['d']['args'] == 'shape':
                args = (o['d']['q'], o['d']['u'])
        else:
            f, args = density(o['d'], a, b)
        made[k_] = f, args
        kw = {}
        if args is not None:
            kw['args'] = args
        if o['wn']:
            kw['wn'] = o['wn']
        if o['m']:
            kw['method'] = o['m']
        if o['inv']:
            kw['invert'] = o['inv']
        why = '%s of %d from %r%s on [%r, %r] with %r' % (k, o['n'], o['d'], ' (callable of call %d)' % o['use'] if 'use' in o else '', a, b, {q: x for q, x in kw.items() if q != 'args'})
        D = Draws(o['s'], o['p'], ['rep', 0.0, NEAR1, TINY, .5, .25])
        if k == 'noise':
            np.random.seed(o['s'] % 2**32)
            import random
            random.seed(o['s'])
            np.random.random(3)
        elif k == 'cdf':
            g = np.linspace(a, b, o['wn'] or 50)
            g0 = g.copy()
            st, v = attempt(lambda: S.cdf_on_grid(f, g, **({'args': args} if args is not None else {})))
            if st != 'ok':
                raise Violation('raises', '%s raises %r' % (why, v))
            w = f(g) if args is None else f(g, args) if isinstance(args, float) else f(g, *args)
            e = np.cumsum(w) / w.sum()
            if np.shape(v) != g.shape or np.abs(v - e).max() > 1e-9:
                raise Violation('cdf', '%s: %s' % (why, first_diff(v, e)))
            if not same_array(g, g0):
                raise Violation('grid', '%s: changes the grid' % why)
        elif k == 'bad':
            n = dict(kw)
            ff = f
            if o['what'] == 'callable':
                ff = f(np.linspace(a, b, 50), *([args] if isinstance(args, float) else args or []))
            else:
                n[o['what']] = r_bad(o['s'])
            with D:
                st, v = attempt(lambda: S.sample(o['n'], ff, a, b, **n))
            if st == 'ok':
                raise Violation('accepted', '%s with bad %s is accepted' % (why, o['what']))
        elif k == 'fail':
            def boom(x, *z):
                fired('density_fails')
                raise OSError(5, 'injected')
            with D:
                st, v = attempt(lambda: S.sample(o['n'], boom, a, b, **kw))
            if st == 'ok':
                raise Violation('swallowed', '%s: a failing density gives %r' % (why, v))
        else:
            hal = o['m'] == 'halton'
            with D:
                st, v = attempt(lambda: S.sample(o['n'], f, a, b, **kw))
            y = vdc(o['n']) if hal else np.array(D.u) if len(D.u) else None
            check(why, st, v, o, f, args, y)
            v = np.array(v)
            if hal:
                halton[k_] = (o, f, args, kw, v)
            state(k, o['d']['k'], o['n'], o['wn'], o['m'], o['inv'], sorted(set(D.u) & {0.0, NEAR1, TINY, .5}))
            ev.append(digest([float(x) for x in v]))
            if k == 'again':
                # the same draws give the same values
                core.FIRED  # same stream again
                D2 = Draws(o['s'], o['p'], ['rep', 0.0, NEAR1, TINY, .5, .25])
                with D2:
                    st, w = attempt(lambda: S.sample(o['n'], f, a, b, **kw))
                if st != 'ok' or not same_array(w, v):
                    raise Violation('repeat', '%s: the same draws give other values' % why)
    for o, f, args, kw, v in halton.values():
        st, w = attempt(lambda: S.sample(o['n'], f, o['ab'][0], o['ab'][1], **kw))
        STAT['runs'] += 1
        if st != 'ok' or not same_array(w, v):
            raise Violation('halton', 'Halton sampling repeated at the end gives other values')
    return ev


def r_bad(s):
    return ['Random', 'sobol', None, '', 'cubic', 3][s % 6]


def shrink(case):
    yield from drop_items(case, ('ops',))
    for i, o in enumerate(case['ops']):
        yield from shrink_int(case, ('ops', i, 'n'), 1)
        if o['wn']:
            yield from shrink_int(case, ('ops', i, 'wn'), 20)
        if o['p']:
            yield set_at(case, ('ops', i, 'p'), 0.0)
        if o['d']['args']:
            yield set_at(case, ('ops', i, 'd', 'args'), None)
        if o['d']['k'] != 'flat':
            yield set_at(case, ('ops', i, 'd', 'k'), 'flat')
        if o['ab'] != [0.0, 1.0]:
            yield set_at(case, ('ops', i, 'ab'), [0.0, 1.0])
