"""C14: generated bunches lie on their design shell for every random stream."""
import contextlib, json, math
from io import StringIO
import numpy as np
from core import *
import core
from draws import Draws, NEAR1, TINY


def emit(r):
    return r.choice([1e-6, 1e-6, 5e-7, 3.3e-6, 1e-5, 10 ** r.uniform(-7, -4.7)])


def twiss(r):
    return {'beta': r.choice([1.0, 1, 0.3, r.uniform(.05, 20), 25]), 'alpha': r.choice([0.0, 0, -1.3, 2.2, r.uniform(-5, 5)])}


def gen(r, i, tier):
    kind = choose(r, [(1, 'std'), (1.3, 'non')])
    e = emit(r)
    n = choose(r, [(4, 4 * r.randint(1, 12)), (2, r.randint(1, 30)), (.5, 1), (.3, r.randint(31, 120))])
    b = {'n': n, 'dist': r.choice(['KV', 'Gaussian'] if kind == 'std' else ['KV', 'waterbag', 'Gaussian']), 'ex': e, 'ey': e if r.random() < .8 else emit(r),
         'x': twiss(r), 'y': twiss(r), 'quiet': r.random() < .45, 'stdz': r.choice([0, 1.0, .01, 3]), 'dpop': r.choice([0, 1e-3, .5])}
    if kind == 'non':
        b.update(t=r.choice([0.0, .1, .1, .05, .3, .45, r.uniform(0, .45)]), c=r.choice([.01, .01, .003, .02, r.uniform(.003, .03)]), cutoff=r.choice([4, 1, 2.5, 9, .5]))
    if r.random() < .3:            # left to their documented defaults
        b['omit'] = [q for q in ('dist', 'emitx', 'emity', 'betax', 'alphax', 'betay', 'alphay', 'dpop', 't', 'c', 'cutoff', 'quiet') if r.random() < .5]
    ops = []
    for _ in range(r.randint(1, 6)):
        k = choose(r, [(6, 'gen'), (1.5, 'long'), (1.5, 'set'), (.5, 'bad'), (.7, 'dist'), (.6, 'quiet'), (.8, 'interrupt'), (.5, 'twiss')])
        o = {'k': k, 's': r.randint(0, 10**9), 'p': r.choice([0.0, .02, .1, .25])}
        if k in ('gen', 'interrupt'):
            o['a'] = {}
            for q in ('emitx', 'betax', 'alphax', 'betay', 'alphay', 'cutoff'):
                if r.random() < .2:
                    o['a'][q] = {'e': emit(r), 'b': twiss(r)['beta'], 'a': twiss(r)['alpha'], 'c': r.choice([4, 2, 6, .7])}[q[0]]
            if 'emitx' in o['a'] and r.random() < .85 or r.random() < .05:
                o['a']['emity'] = o['a'].get('emitx', emit(r)) if r.random() < .9 else emit(r)
        if k == 'gen' and r.random() < .12:
            o['streak'] = [r.randint(0, 40), r.choice([20, 300, 3000, 3000, 30000])]
        if k == 'interrupt':
            o['line'] = r.choice([5, 20, r.randint(0, 400), r.randint(0, 3000)])
            o['e'] = r.choice(['mem', 'int'])
        if k == 'long':
            o['a'] = {q: r.choice([0, .1, 2.0]) for q in ('stdz', 'dpop') if r.random() < .5}
        if k == 'set':
            q = r.choice(['betax', 'betay', 'alphax', 'alphay', 'emit'] + (['t', 'c', 'cutoff'] if kind == 'non' else []))
            o['q'] = q
            o['v'] = {'b': twiss(r)['beta'], 'a': twiss(r)['alpha'], 't': r.choice([0.0, .2, .4]), 'e': emit(r), 'c': r.choice([.004, .015]) if q == 'c' else r.choice([3, 1.5])}[q[0]]
        if k == 'bad':
            o['q'] = r.choice(['betax', 'betay'] + (['t', 'c', 'cutoff'] if kind == 'non' else []))
        if k == 'dist':
            o['d'] = r.choice(['KV', 'Gaussian'] if kind == 'std' else ['KV', 'waterbag', 'Gaussian'])
        ops.append(o)
    if not any(o['k'] == 'gen' for o in ops):
        ops.append({'k': 'gen', 's': r.randint(0, 10**9), 'p': .05, 'a': {}})
    return {'kind': kind, 'b': b, 'ops': ops}


def potential(xh, yh, t, c):
    q = .5 * (xh * xh + yh * yh)
    if not t:
        return q
    x, y = xh / c, yh / c
    a, b = np.hypot(x + 1, y), np.hypot(x - 1, y)
    u, v = np.maximum((a + b) / 2, 1), np.clip((a - b) / 2, -1, 1)
    el = (u * np.sqrt(u * u - 1) * np.arccosh(u) + v * np.sqrt(1 - v * v) * (np.arccos(v) - np.pi / 2)) / (u * u - v * v)
    return q - t * c * c * el


class Cut:
    """A line hook that interrupts the generation at its n-th line."""
    def __init__(self, n, e):
        self.n, self.e, self.done = n, e, False

    def __call__(self, code, line):
        if self.prev is not None:
            self.prev(code, line)
        self.n -= 1
        if self.n < 0 and not self.done:
            self.done = True
            raise MemoryError('injected') if self.e == 'mem' else Interrupt('injected')


class Interrupt(Exception):
    """Stands for Ctrl-C."""


def run(case):
    from rsbeams.rsptcls import bunch as B
    kind, d = case['kind'], case['b']
    core.PROBES['seam'] += 0
    non = kind == 'non'
    kw = dict(dist=d['dist'], emitx=d['ex'], emity=d['ey'], betax=d['x']['beta'], alphax=d['x']['alpha'], betay=d['y']['beta'], alphay=d['y']['alpha'],
              stdz=d['stdz'], dpop=d['dpop'])
    default = dict(dist='KV' if non else 'Gaussian', emitx=1e-6, emity=1e-6, betax=1., alphax=0., betay=1., alphay=0., dpop=0, t=.1, c=.01, cutoff=4)
    n = d['n']
    cut_once = False
    m = dict(emitx=d['ex'], emity=d['ey'], betax=d['x']['beta'], alphax=d['x']['alpha'], betay=d['y']['beta'], alphay=d['y']['alpha'],
             stdz=d['stdz'], dpop=d['dpop'], emit=d['ex'] + d['ey'], dist=d['dist'], quiet=d['quiet'])
    if non:
        kw.update(t=d['t'], c=d['c'], cutoff=d['cutoff'])
        m.update(t=d['t'], c=d['c'], cutoff=d['cutoff'])
    for q in d.get('omit', []):
        if q in kw:
            del kw[q]
            m[q] = default[q]
    m['emit'] = m['emitx'] + m['emity']
    if non:
        b = B.NonlinearBunch(n, **kw)
        b.quiet = d['quiet']
    else:
        if 'quiet' in d.get('omit', []):
            m['quiet'] = False
        else:
            kw['quiet'] = d['quiet']
        b = B.StandardBunch(n, **kw)
    ev = []

    def settings(why):
        for q, v in m.items():
            if getattr(b, q) != v:
                raise Violation('setting', '%s: %s is %r, expected %r' % (why, q, getattr(b, q), v))
        if b.npart != n:
            raise Violation('setting', '%s: npart is %r' % (why, b.npart))

    def ids(why):
        P = np.asarray(b.particles)
        if P.shape != (n, 7):
            raise Violation('count', '%s: particles have shape %s, %d requested' % (why, P.shape, n))
        if not np.array_equal(P[:, 6], np.arange(n)):
            raise Violation('ids', '%s: identifiers are %r' % (why, P[:10, 6]))
        if not np.isfinite(P).all():
            raise Violation('finite', '%s: particle %d is %r' % (why, int(np.argwhere(~np.isfinite(P))[0][0]), P[~np.isfinite(P).all(1)][0]))
        return P

    def set_model(q, v):
        m[q] = v
        if non and q in ('betax', 'betay'):
            m['betax'] = m['betay'] = v
    settings('construction')
    for o in case['ops']:
        k = o['k']
        STAT['runs'] += 1
        uni = ['rep', 0.0, .5, .25, .75, NEAR1]
        if not (non and m['dist'] == 'waterbag'):
            uni.append(TINY)
        if non and m['dist'] == 'Gaussian':
            uni.remove(NEAR1)
        D = Draws(o['s'], o['p'], uni, ['rep', 0.0, 6.0, -6.0, -0.0, 1.0], limit=60 + n, gap=2 if non else 0, streak=o.get('streak'))
        why = '%s of a %s %s bunch (n=%d, %s)' % (k, 'nonlinear' if non else 'standard', m['dist'], n, {q: v for q, v in m.items() if q != 'dist'})
        if k == 'set':
            setattr(b, o['q'], o['v'])
            set_model(o['q'], o['v'])
        elif k == 'bad':
            bad = 0 if o['q'].startswith('beta') and o['s'] % 2 else -1.0
            st, v = attempt(lambda: setattr(b, o['q'], bad))
            if st == 'ok':
                raise Violation('accepted', '%s = %r is accepted' % (o['q'], bad))
        elif k == 'twiss':
            if not cut_once:
                twiss_report(why, b, m)
        elif k == 'dist':
            b.dist = m['dist'] = o['d']
        elif k == 'quiet':
            b.quiet = m['quiet'] = not m['quiet']
        elif k == 'long':
            trans = b.particles[:, :4].copy()
            with D:
                st, v = attempt(lambda: b.set_longitudinal_coordinates(**o['a']))
            if st != 'ok':
                raise Violation('raises', '%s: raises %r' % (why, v))
            m.update(o['a'])
            P = ids(why)
            if not same_array(P[:, :4], trans):
                raise Violation('other-columns', '%s: changes transverse coordinates' % why)
            scaled(why, P[:, 4:6], [m['stdz'], m['dpop']], D.n, n)
        elif k in ('gen', 'interrupt'):
            a = {q: v for q, v in o['a'].items() if q not in (('betay', 'alphay') if non else ('cutoff',))}
            for q, v in a.items():
                set_model(q, v)
            if 'emitx' in a or 'emity' in a:
                m['emit'] = m['emitx'] + m['emity'] if non else None
            kv = m['dist'] == 'KV'
            bad_kv = kv and m['emitx'] != m['emity']
            if kv and not bad_kv:
                m['emit'] = m['emitx'] if non else 4 * m['emitx']
            if m['emit'] is None or bad_kv and k == 'interrupt':
                m['emit'] = b.emit if not a.get('emitx') and not a.get('emity') else None
            long = b.particles[:, 4:6].copy()
            cut = Cut(o['line'], o['e']) if k == 'interrupt' else None
            with D:
                if cut:
                    st, v = interrupted(lambda: b.set_transverse_coordinates(**a), cut)
                else:
                    st, v = attempt(lambda: b.set_transverse_coordinates(**a), budget=6_000_000)
            if cut and cut.done:
                fired('interrupt_' + o['e'])
                cut_once = True
                if st == 'ok':
                    raise Violation('swallowed', '%s: an interruption is swallowed' % why)
                # the arguments may have arrived in part; a distribution half made is the caller's to discard
                for q in list(a) + (['emit'] if kv else []):
                    m[q] = getattr(b, q)
                if 'emitx' in a or 'emity' in a or kv:
                    m['emit'] = b.emit
                if non and 'betax' in a:
                    m['betay'] = b.betay
                settings('after an interrupted ' + why)
                state('int', kind, m['dist'])
                continue
            odd = m['quiet'] and n % 4 and not (m['dist'] == 'Gaussian' and not non)
            if m['emit'] is None:
                m['emit'] = b.emit
            if st == 'raise':
                if bad_kv and isinstance(v, AssertionError) or odd:
                    m['emit'] = b.emit if bad_kv else m['emit']
                    settings('after a refused ' + why)
                    ev.append('refused')
                    continue
                raise Violation('raises', '%s: raises %r' % (why, v))
            if bad_kv:
                raise Violation('accepted', '%s: a KV bunch of unequal emittances is accepted' % why)
            P = ids(why)
            if not same_array(P[:, 4:6], long):
                raise Violation('other-columns', '%s: changes longitudinal coordinates' % why)
            settings(why)
            shell(why, P, m, non, n, D)
            hamiltonian(why, b, P, m, non, o['s'] % n)
            if m['quiet'] and n % 4 == 0 and (non or kv):
                cen = np.abs(P[:, :4].mean(0))
                if (cen > 1e-12 * (np.abs(P[:, :4]).max(0) + 1e-300)).any():
                    raise Violation('centroid', '%s: quiet start with centroid %r' % (why, P[:, :4].mean(0)))
            state(kind, m['dist'], n, m['quiet'], len(D.u), len(D.n), sorted(a))
            ev.append(digest([float(x) for x in P.ravel()]))
        settings('after ' + why)
        ids('after ' + why)
    return ev


def twiss_report(why, b, m):
    """The printed Twiss parameters."""
    out = StringIO()
    with contextlib.redirect_stdout(out):
        b.print_Twiss()
    got = {}
    for l in out.getvalue().splitlines():
        q, _, v = l.partition(':')
        try:
            got[q.strip()] = float(v)
        except ValueError:
            pass
    for q in 'xy':
        be, al = m['beta' + q], m['alpha' + q]
        for name, want in (('beta', be), ('alpha', al), ('gamma', (1 + al * al) / be)):
            v = got.get(name + q)
            if v is None or abs(v - want) > 1e-9 * abs(want):
                raise Violation('twiss', '%s: %s%s is reported as %r, expected %r' % (why, name, q, v, want))


def interrupted(fn, cut):
    try:
        cut.prev = core._hook
        core.set_line_hook(cut)
        return 'ok', fn()
    except Exception as e:
        e.__traceback__ = None
        return 'raise', e
    finally:
        core.set_line_hook(cut.prev)


def scaled(why, cols, sig, draws, n):
    """Every column is the rms size times standard normal draws."""
    z = []
    for q, s in enumerate(sig):
        if s == 0:
            if np.any(cols[:, q] != 0):
                raise Violation('size', '%s: column %d is not zero though its size is' % (why, q))
        else:
            z.append(cols[:, q] / s)
    if not draws or not z:
        return
    if len(draws) != len(sig) * n or len(z) != len(sig):
        # another number of draws than coordinates: every coordinate is still one of the draws
        z, g = np.concatenate(z), np.sort(np.array(draws))
        k = np.clip(np.searchsorted(g, z), 1, max(1, len(g) - 1)) if len(g) > 1 else np.zeros(len(z), int)
        g = np.where(np.abs(z - g[k - 1]) < np.abs(z - g[k]), g[k - 1], g[k]) if len(g) > 1 else np.full(len(z), g[0])
    else:
        z, g = np.sort(np.concatenate(z)), np.sort(np.array(draws))
    if (np.abs(z - g) > 1e-9 * (1 + np.abs(g))).any():
        q = int(np.argmax(np.abs(z - g)))
        raise Violation('size', '%s: coordinates over their rms sizes %r do not give back the normal draws (%r instead of %r)' % (why, sig, z[q], g[q]))


def hamiltonian(why, b, P, m, non, k):
    """The invariant the bunch reports of one of its particles."""
    x, px, y, py = P[k, :4]
    bx, by = math.sqrt(m['betax']), math.sqrt(m['betay'])
    x, y = x / bx, y / by
    px, py = px * bx + m['alphax'] * x, py * by + m['alphay'] * y
    t, c = (m['t'], m['c']) if non else (0, 1)
    with np.errstate(all='ignore'):
        e = 4e-16
        U = float(potential(x, y, t, c))
        s = max([0] + [abs(np.nan_to_num(float(potential(x * a, y * d, t, c)) - U, nan=1e-7 * m['emit'])) for a, d in ((1 + e, 1), (1 - e, 1), (1, 1 + e), (1, 1 - e))])
    if not np.isfinite(U):
        return
    for name, got, want in (('potential', b.compute_potential(x, y), U), ('Hamiltonian', b.compute_Hamiltonian(x, px, y, py), U + .5 * (px * px + py * py))):
        if got is None or not abs(got - want) <= 1e-7 * (abs(want) + m['emit']) + 100 * s:
            raise Violation('invariant', '%s: the %s of particle %d is reported as %r, it is %r' % (why, name, k, got, want))


def shell(why, P, m, non, n, D):
    gx, gy = (1 + m['alphax'] ** 2) / m['betax'], (1 + m['alphay'] ** 2) / m['betay']
    if m['dist'] == 'Gaussian' and not non:
        scaled(why, P[:, :4], [math.sqrt(m['emitx'] * m['betax']), math.sqrt(m['emitx'] * gx), math.sqrt(m['emity'] * m['betay']), math.sqrt(m['emity'] * gy)], D.n, n)
        return
    bx, by = math.sqrt(m['betax']), math.sqrt(m['betay'])
    xh, yh = P[:, 0] / bx, P[:, 2] / by
    px, py = P[:, 1] * bx + m['alphax'] * xh, P[:, 3] * by + m['alphay'] * yh
    t, c = (m['t'], m['c']) if non else (0, 1)
    with np.errstate(all='ignore'):
        U = potential(xh, yh, t, c)
        H = .5 * (px**2 + py**2) + U
        e = 4e-16
        sens = np.zeros(n)
        for sx, sy in ((1 + e, 1), (1 - e, 1), (1, 1 + e), (1, 1 - e)):
            sens = np.maximum(sens, np.abs(np.nan_to_num(potential(xh * sx, yh * sy, t, c) - U, nan=1e-7 * m['emit'])))
    E = m['emit']
    tol = 1e-8 * E + 100 * sens
    if m['dist'] == 'KV':
        bad = np.abs(H - E) > tol
    elif m['dist'] == 'waterbag':
        bad = H > E + tol
    else:
        bad = H > E * m['cutoff'] + tol * max(1, m['cutoff'])
    bad |= ~np.isfinite(H)
    if bad.any():
        q = int(np.argmax(bad))
        raise Violation('shell', '%s: %d of %d particles are off the shell; particle %d has H = %r, emittance %r' % (why, bad.sum(), n, q, H[q], E))


def shrink(case):
    yield from drop_items(case, ('ops',))
    if case['b']['n'] > 1:
        if case['b']['n'] % 4 == 0 and case['b']['n'] > 4:
            yield set_at(case, ('b', 'n'), 4)
        yield from shrink_int(case, ('b', 'n'), 1)
    for i, o in enumerate(case['ops']):
        if 'streak' in o:
            c = json.loads(json.dumps(case))
            del c['ops'][i]['streak']
            yield c
            yield from shrink_int(case, ('ops', i, 'streak', 1))
        if o['p']:
            yield set_at(case, ('ops', i, 'p'), 0.0)
        for q in list(o.get('a', {})):
            c = json.loads(json.dumps(case))
            del c['ops'][i]['a'][q]
            yield c
        if o['s'] > 3:
            yield set_at(case, ('ops', i, 's'), 1)
    for q in ('x', 'y'):
        if case['b'][q] != {'beta': 1.0, 'alpha': 0.0}:
            yield set_at(case, ('b', q), {'beta': 1.0, 'alpha': 0.0})
            yield set_at(case, ('b', q, 'alpha'), 0.0)
    if case['b']['quiet']:
        yield set_at(case, ('b', 'quiet'), False)
