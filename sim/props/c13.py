"""C13: decoherence turns come back in order for any worker count and schedule."""
import copy, json, math
import numpy as np
from core import *
import core, pools


def setup():
    import rsbeams.rsphysics.decoherence
    pools.install()


def coef(r, k):
    if k == 1:
        return choose(r, [(6, r.choice([1, -1]) * 10 ** r.uniform(-5, -.7)), (1, 1e-3), (.3, 0.0), (.3, 0), (.2, None), (.2, 1)])
    if k == 2:
        return choose(r, [(6, 10 ** r.uniform(-4, -.7)), (1, 0.01), (.4, -0.003), (.2, 0.0), (.15, 'x')])
    return choose(r, [(5, r.choice([1, -1]) * 10 ** r.uniform(-5, -1.3)), (1, 0.0), (1, 1e-4)])


def settings(r):
    order = choose(r, [(3, 1), (3, 2), (1.5, 3), (.7, 4)])
    N = choose(r, [(5, r.randint(1, 25)), (2, r.randint(26, 70)), (.4, 0), (.6, 1), (.5, 2)])
    if order > 2:
        N = min(N, 12)
    return {'N': N, 'Z': r.choice([1.0, 1, -0.7, r.uniform(.01, 8), 0.0]), 'nu0': r.choice([0.0, .25, 1, r.uniform(0, 9.5), r.uniform(0, 1)]),
            'mu': [coef(r, k + 1) for k in range(order)], 'as': r.choice(['list', 'list', 'tuple', 'array'])}


def gen(r, i, tier):
    calcs = [settings(r) for _ in range(r.choice([1, 2, 2, 3]))]
    ops = []
    for _ in range(r.randint(2, 8)):
        k = choose(r, [(6, 'run'), (1.5, 'one'), (1.2, 'change'), (.6, 'replace')])
        o = {'k': k, 'c': r.randrange(len(calcs)), 's': r.randint(0, 10**9)}
        if k == 'run':
            o['p'] = choose(r, [(6, r.randint(1, 9)), (1, None), (1, 1), (.5, r.randint(10, 40))])
            f = choose(r, [(5, None), (2, 'task'), (.5, 'create')])
            if f == 'task':
                o['f'] = [{'at': frac(r, 5), 't': r.choice(['before', 'inside', 'inside', 'after']), 'line': r.choice([0, 1, 3, r.randint(0, 30)]),
                           'e': r.choice(['mem', 'os', 'arith', 'value'])} for _ in range(r.choice([1, 1, 2]))]
            if f == 'create':
                o['create'] = 1
        if k == 'one':
            o['turn'] = r.choice([None, 0, 1, r.randint(0, 40)])
            o['how'] = r.choice([1, 2, 3])
        if k in ('change', 'replace'):
            o['to'] = settings(r)
            o['what'] = r.choice(['N', 'Z', 'nu0', 'mu', 'mu0'])
        ops.append(o)
    return {'calcs': calcs, 'ops': ops}


def mu_of(d):
    mu = d['mu']
    if d['as'] == 'array' and all(isinstance(x, (int, float)) for x in mu):
        return np.array(mu, dtype=float)
    return tuple(mu) if d['as'] == 'tuple' else list(mu)


def reference(n, Z, nu0, mu):
    """Z * int_0^1 cos(2 pi n (nu0 - sum mu_i s^i)) ds, by Gauss-Legendre; None if not resolvable."""
    if n == 0:
        return Z
    ph = 2 * math.pi * n * sum(abs(m) * (k + 1) for k, m in enumerate(mu))
    if ph > 300:
        return None
    s, w = np.polynomial.legendre.leggauss(60 + int(ph))
    s = (s + 1) / 2
    adv = sum(m * s ** (k + 1) for k, m in enumerate(mu))
    return Z * float(np.sum(w / 2 * np.cos(2 * math.pi * n * (nu0 - adv))))


def solo(C, d, n, how=None):
    """The value of turn n computed alone by a calculator of its own."""
    c = C(d['N'], d['Z'], d['nu0'], mu_of(d))
    f = {1: c.integrate_first_order, 2: c.integrate_second_order}.get(how or len(d['mu']), c.integrate_any_order)
    st, v = attempt(lambda: f(n))
    if st == 'raise' and defined(d, how):
        raise Violation('raises', 'turn %d computed alone raises %r (N=%s Z=%r nu0=%r mu=%r)' % (n, v, d['N'], d['Z'], d['nu0'], d['mu']))
    return st, v


def defined(d, how=None):
    """The formula asked for has a value with these settings."""
    mu = d['mu'][:how] if how in (1, 2) else d['mu']
    return all(isinstance(x, (int, float)) for x in mu) and not (len(mu) == 2 and mu[1] <= 0 and how != 3) and not (len(mu) == 1 and mu[0] == 0 and how != 3)


def close(a, b, Z, tol):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return (math.isnan(a) and math.isnan(b)) or a == b
    return abs(a - b) <= tol * (abs(float(Z)) + 1e-9)


def same_settings(c, d, mu):
    return c.N == d['N'] and c.Z == d['Z'] and c.nu0 == d['nu0'] and type(c.mu) is type(mu) and len(c.mu) == len(d['mu']) and \
        all((x is y or x == y) for x, y in zip(list(c.mu), d['mu']))


def check_value(why, n, v, d, ref, how=None):
    st, w = ref
    if st == 'ok' and not close(v, w, d['Z'], 1e-8):
        raise Violation('value', '%s: turn %d is %r, computed alone it is %r (N=%s Z=%r nu0=%r mu=%r)' % (why, n, v, w, d['N'], d['Z'], d['nu0'], d['mu']))
    mu = d['mu'][:how] if how in (1, 2) else d['mu']
    if defined(d, how):
        g = reference(n, d['Z'], d['nu0'], mu)
        if g is not None and not close(v, g, d['Z'], 1e-6):
            raise Violation('formula', '%s: turn %d is %r, the formula of order %d gives %r (Z=%r nu0=%r mu=%r)' % (why, n, v, len(mu), g, d['Z'], d['nu0'], d['mu']))


def run(case):
    from rsbeams.rsphysics.decoherence import CentroidPosition as C
    ds = [dict(d) for d in case['calcs']]
    mus = [mu_of(d) for d in ds]
    cs = [C(d['N'], d['Z'], d['nu0'], m) for d, m in zip(ds, mus)]
    ev = []
    for o in case['ops']:
        STAT['runs'] += 1
        j = o['c']
        c, d = cs[j], ds[j]
        k = o['k']
        if k == 'replace':
            ds[j] = dict(o['to'])
            mus[j] = mu_of(ds[j])
            cs[j] = C(ds[j]['N'], ds[j]['Z'], ds[j]['nu0'], mus[j])
        elif k == 'change':
            d = ds[j] = dict(d)
            t = o['to']
            if o['what'] == 'mu':
                d['mu'], d['as'] = t['mu'], t['as']
                if len(d['mu']) > 2:
                    d['N'] = c.N = min(d['N'], 12)
                mus[j] = c.mu = mu_of(d)
            elif o['what'] == 'mu0':
                v = t['mu'][0]
                if isinstance(c.mu, list):          # the caller's own list, edited in place
                    c.mu[0] = v
                    d['mu'] = [v] + d['mu'][1:]
                    mus[j] = c.mu
            else:
                v = t[o['what']]
                if o['what'] == 'N' and len(d['mu']) > 2:
                    v = min(v, 12)
                d[o['what']] = v
                setattr(c, o['what'], v)
        elif k == 'one':
            how = o['how']
            if how == 2 and len(d['mu']) < 2:
                how = 1
            n = d['N'] if o['turn'] is None else o['turn']
            if how == 3 and n > 12:
                continue
            f = [c.integrate_first_order, c.integrate_second_order, c.integrate_any_order][how - 1]
            st, v = attempt((lambda: f()) if o['turn'] is None else (lambda: f(o['turn'])))
            rs = solo(C, d, n, how)
            if st != rs[0]:
                raise Violation('solo', 'turn %d alone: %r, on a fresh calculator: %r' % (n, v, rs[1]))
            if st == 'ok':
                check_value('single turn', n, v, d, rs, how)
            state('one', how, n > 0, o['turn'] is None)
        elif k == 'run':
            refs = [solo(C, d, n) for n in range(d['N'])]
            natural = any(s == 'raise' for s, v in refs)
            fail = {}
            for f in o.get('f', []):
                fail[str(int(f['at'] * max(1, d['N'])))] = f
            sim = pools.Sim(o['s'], fail, bool(o.get('create')))
            pools.CURRENT[0] = sim
            st, v = attempt(lambda: c.calculate_centroids(o['p']) if o['p'] is not None or o['s'] % 2 else c.calculate_centroids())
            pools.CURRENT[0] = None
            why = 'N=%s mu=%r p=%r%s' % (d['N'], d['mu'], o['p'], ' with failures' if fail or o.get('create') else '')
            hit = any(int(q) < sim.started for q in fail) or (o.get('create') and sim.pools)
            if st == 'ok':
                if (hit or natural):
                    raise Violation('swallowed', '%s: a worker failure is not reported; the result is %r' % (why, v))
                if v is None or len(v) != d['N']:
                    raise Violation('length', '%s: %r values' % (why, None if v is None else len(v)))
                for n in range(d['N']):
                    check_value(why, n, v[n], d, refs[n])
            elif not hit and not natural:
                raise Violation('raises', '%s: raises %r' % (why, v))
            for p in sim.pools:
                if p.released is None:
                    raise Violation('leak', '%s: the worker pool is not released (%s)' % (why, 'returned' if st == 'ok' else 'raised %r' % (v,)))
            STAT['tasks'] += sim.started
            STAT['sim_time_ms'] += int(sim.t * 1000)
            STAT['reordered_runs'] += sim.order != sorted(sim.order)
            state('run', d['N'], o['p'], len(d['mu']), st, sim.order[:40])
            ev.append([st, len(sim.pools), sim.started, digest(sim.order)])
        for q in range(len(cs)):
            if not same_settings(cs[q], ds[q], mus[q]):
                raise Violation('settings', 'after %s the settings of calculator %d are N=%r Z=%r nu0=%r mu=%r, expected %r' % (
                    k, q, cs[q].N, cs[q].Z, cs[q].nu0, cs[q].mu, ds[q]))
    return ev


def shrink(case):
    yield from drop_items(case, ('ops',))
    for i, o in enumerate(case['ops']):
        for key in ('f', 'create'):
            if key in o:
                c = json.loads(json.dumps(case))
                del c['ops'][i][key]
                yield c
        if o.get('p') not in (None, 1):
            yield from shrink_int(case, ('ops', i, 'p'), 1)
        if o.get('s', 0) > 1:
            yield set_at(case, ('ops', i, 's'), 1)
    for i, d in enumerate(case['calcs']):
        yield from shrink_int(case, ('calcs', i, 'N'))
        if len(d['mu']) > 1:
            yield set_at(case, ('calcs', i, 'mu'), d['mu'][:1])
        if d['nu0'] != 0.25:
            yield set_at(case, ('calcs', i, 'nu0'), 0.25)
