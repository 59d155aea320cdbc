"""C15: cleaned 6D beams have exact moments for every random stream."""
import json, math
import numpy as np
from core import *
import core
from draws import Draws, NEAR1, TINY


def tw(r):
    return {'a': r.choice([0.0, 0, 1.0, -1.0, r.uniform(-5, 5), r.uniform(-5, 5), -1e-3, 1e-8]), 'b': r.choice([1.0, 1, 10 ** r.uniform(-2, 2), 10 ** r.uniform(-2, 2), None]),
            'e': r.choice([1.0, 1e-6, 10 ** r.uniform(-9, 1)])}


def beta(t):
    # None: beta equal to gamma
    return t['b'] if t['b'] is not None else math.sqrt(1 + t['a'] ** 2)


def gen(r, i, tier):
    ops = []
    for _ in range(r.randint(2, 9)):
        k = choose(r, [(2, 'dist'), (2.5, 'beam'), (3, 'offset'), (3, 'scale'), (1.5, 'badindex'), (2, 'twiss'), (.3, 'badtype'), (.3, 'badfac'), (1, 'stats'), (1, 'refill')])
        o = {'k': k, 'o': r.randint(0, 3), 's': r.randint(0, 10**9)}
        if not ops:
            o['k'] = k = r.choice(['dist', 'beam'])
        if k in ('dist', 'beam', 'badtype', 'badfac'):
            o.update(n=choose(r, [(3, r.randint(20, 60)), (1, r.randint(61, 200))]), d=r.choice(['uniform', 'gaussian']), fac=r.choice([1.0, 3.0, 4, 25.0, .5, r.uniform(.5, 30)]),
                     p=r.choice([0.0, .02, .1, .2]), ps=r.choice([1e6, 1.0, 5e8]), q=r.choice([1e-9, 1.0]), m=r.choice([510998.9, 938.272e6]))
            o['tw'] = [tw(r) for _ in range(3)]
        if k == 'refill':
            o.update(d=r.choice(['uniform', 'gaussian']), p=r.choice([0.0, 0.0, .05]))
        if k in ('offset', 'scale', 'badindex'):
            o['i'] = r.randint(0, 5) if k != 'badindex' else r.choice([-1, 6, -6, 7, 100])
            o['v'] = r.choice([0, 1.5, -2, 1e-6, 1e6, r.uniform(-3, 3)])
            o['how'] = r.choice(['offset', 'scale'])
        ops.append(o)
    return {'ops': ops}


def moments(A):
    A = A.astype(np.longdouble)
    mean = A.mean(1)
    D = A - mean[:, None]
    C = (D @ D.T) / A.shape[1]
    return mean.astype(float), C.astype(float)


def normal(why, A, n):
    if A.shape != (6, n):
        raise Violation('count', '%s: the array has shape %s, %d particles requested' % (why, A.shape, n))
    if not np.isfinite(A).all():
        raise Violation('finite', '%s: not all coordinates are finite' % why)
    mean, C = moments(A)
    if (np.abs(mean) > 1e-9).any():
        raise Violation('mean', '%s: mean is %r' % (why, mean))
    rms = np.sqrt(np.diag(C))
    if (np.abs(rms - 1) > 1e-9).any():
        raise Violation('rms', '%s: rms is %r' % (why, rms))
    off = np.abs(C - np.diag(np.diag(C)))
    if off.max() > 1e-8:
        raise Violation('correlation', '%s: coordinates %r have correlation %r' % (why, np.unravel_index(off.argmax(), off.shape), off.max()))


def shape(why, A, d, fac, fair):
    # coordinates as drawn, before they are cleaned
    n = A.shape[1]
    if not np.isfinite(A).all():
        raise Violation('finite', '%s: not all coordinates are finite' % why)
    if d == 'uniform':
        for h, w in ((0, 'positions'), (1, 'momenta')):
            r2 = (A[h::2] ** 2).sum(0)
            if not (r2 < 1 + 1e-12).all():
                raise Violation('outside', '%s: %s reach radius %r' % (why, w, math.sqrt(r2.max())))
            # a filled ball has mean squared radius 3/5, variance 12/175, and each axis mean 0, variance 1/5; nine standard deviations
            if fair and abs(r2.mean() - .6) > 9 * math.sqrt(12 / 175 / n):
                raise Violation('fill', '%s: the mean squared radius of the %s is %r' % (why, w, r2.mean()))
            if fair and (np.abs(A[h::2].mean(1)) > 9 * math.sqrt(.2 / n)).any():
                raise Violation('fill', '%s: %s are centred at %r' % (why, w, A[h::2].mean(1)))
    else:
        if not (A ** 2 < fac).all():
            raise Violation('outside', '%s: a coordinate is %r with max_rms_fac %r' % (why, np.abs(A).max(), fac))
        c = math.sqrt(fac)
        z = math.erf(c / math.sqrt(2))
        var = 1 - c * math.sqrt(2 / math.pi) * math.exp(-fac / 2) / z
        if fair and (np.abs(A.mean(1)) > 9 * math.sqrt(var / n)).any():
            raise Violation('fill', '%s: coordinates are centred at %r' % (why, A.mean(1)))
        if fair and (np.abs((A ** 2).mean(1) - var) > 9 * math.sqrt(2 / n) * var).any():
            raise Violation('fill', '%s: mean squares are %r, expected about %r' % (why, (A ** 2).mean(1), var))


def matched(why, a, b, e, t):
    A, Bt, E = t['a'], beta(t), t['e']
    G = (1 + A * A) / Bt
    tol = 1e-8 + 1e-13 * (G + Bt) ** 2
    if abs(e - E) > tol * (1 + A * A) * E:
        raise Violation('emittance', '%s: emittance is %r, requested %r' % (why, e, E))
    if abs(b - Bt) > tol * (G + Bt) or abs(a - A) > tol * (G + Bt):
        raise Violation('twiss', '%s: alpha, beta are %r, %r, requested %r, %r' % (why, a, b, A, Bt))


def run(case):
    from rsbeams.rsptcls.RsDistrib6D import RsDistrib6D
    from rsbeams.rsptcls.RsPtclBeam6D import RsPtclBeam6D
    objs = []        # (distribution, beam or None, model array)
    ev = []

    def others(skip, why):
        for q, (d, b, A) in enumerate(objs):
            if q != skip and not same_array(d.get_phase_space_6d().get_array_6d(), A):
                raise Violation('other-beam', '%s changes beam %d' % (why, q))
    for o in case['ops']:
        k = o['k']
        STAT['runs'] += 1
        if k in ('dist', 'beam', 'badtype', 'badfac'):
            fac = o['fac'] if k != 'badfac' else -abs(o['fac'])
            # values the rejection accepts, so that repeats do not stall it
            D = Draws(o['s'], o['p'], ['rep', 0.0, .5, .25, NEAR1, TINY], ['rep', 0.0, 9.0, -1e-300, .5], limit=o['n'], gap=3)
            d = o['d'] if k != 'badtype' else 'waterbag'
            why = '%s %s n=%d' % (k, d, o['n'])
            t = o['tw']
            with D:
                if k == 'beam':
                    st, v = attempt(lambda: RsPtclBeam6D(o['n'], o['ps'], o['q'], o['m'], d, fac, *[x for q in t for x in (q['a'], beta(q), q['e'])]), budget=20_000_000)
                else:
                    st, v = attempt(lambda: RsDistrib6D(o['n'], d, fac), budget=20_000_000)
            if k in ('badtype', 'badfac'):
                if st == 'ok':
                    raise Violation('accepted', '%s with factor %r is accepted' % (why, fac))
            else:
                if st != 'ok':
                    raise Violation('raises', '%s: raises %r' % (why, v))
                dd = v.get_distrib6d() if k == 'beam' else v
                A = np.array(dd.get_phase_space_6d().get_array_6d())
                if dd.get_phase_space_6d().get_num_ptcls() != o['n']:
                    raise Violation('count', '%s: reports %r particles' % (why, dd.get_phase_space_6d().get_num_ptcls()))
                if (dd.get_distrib_type(), dd.get_max_rms_fac()) != (d, fac):
                    raise Violation('design', '%s: type %r and factor %r are reported, %r was requested' % (why, dd.get_distrib_type(), dd.get_max_rms_fac(), fac))
                if k == 'dist':
                    normal(why, A, o['n'])
                else:
                    if A.shape != (6, o['n']):
                        raise Violation('count', '%s: the array has shape %s' % (why, A.shape))
                    mean, C = moments(A)
                    for p in range(3):
                        c = C[2 * p:2 * p + 2, 2 * p:2 * p + 2]
                        e2 = c[0, 0] * c[1, 1] - c[0, 1] ** 2
                        if not e2 > 0:
                            raise Violation('emittance', '%s: plane %d has squared emittance %r' % (why, p, e2))
                        e = math.sqrt(e2)
                        matched('%s, plane %d' % (why, p), -c[0, 1] / e, c[0, 0] / e, e, t[p])
                        s = np.sqrt(np.diag(c))
                        if (np.abs(mean[2 * p:2 * p + 2]) > 1e-9 * s).any():
                            raise Violation('mean', '%s: the mean of plane %d is %r' % (why, p, mean[2 * p:2 * p + 2]))
                    s = np.sqrt(np.diag(C))
                    R = np.abs(C / np.outer(s, s))
                    for p in range(3):
                        R[2 * p:2 * p + 2, 2 * p:2 * p + 2] = 0
                    if R.max() > 1e-7:
                        raise Violation('correlation', '%s: planes are correlated (%r)' % (why, R.max()))
                    g = v.get_twiss2d_by_name('twiss_' + 'xyz'[o['s'] % 3])
                    q = t[o['s'] % 3]
                    if (g.get_alpha_rms(), g.get_beta_rms(), g.get_emit_rms()) != (q['a'], beta(q), q['e']):
                        raise Violation('design', '%s: the design Twiss parameters are %r' % (why, vars(g)))
                    if (v.get_design_p_ev(), v.get_total_charge_c(), v.get_mass_ev()) != (o['ps'], o['q'], o['m']):
                        raise Violation('design', '%s: design momentum, charge or mass differ' % why)
                objs.append((dd, v if k == 'beam' else None, A))
                others(len(objs) - 1, why)
                state(k, d, o['n'], len(D.u), len(D.n))
                ev.append(digest([float(x) for x in A.ravel()]))
        elif objs:
            j = o['o'] % len(objs)
            d, b, A = objs[j]
            n = A.shape[1]
            why = '%s of component %s by %r' % (k, o.get('i'), o.get('v'))
            if k in ('offset', 'scale', 'badindex'):
                f = {'offset': d.offset_component, 'scale': d.multiply_component}[o['how'] if k == 'badindex' else k]
                st, v = attempt(lambda: f(o['v'], o['i']))
                if k == 'badindex':
                    if st == 'ok':
                        raise Violation('accepted', why + ' is accepted')
                else:
                    if st != 'ok':
                        raise Violation('raises', '%s raises %r' % (why, v))
                    E = A.copy()
                    E[o['i']] = A[o['i']] + o['v'] if k == 'offset' else A[o['i']] * o['v']
                    N = np.array(d.get_phase_space_6d().get_array_6d())
                    for q in range(6):
                        if q != o['i'] and not same_array(N[q], A[q]):
                            raise Violation('other-component', '%s changes component %d' % (why, q))
                    if not np.allclose(N[o['i']], E[o['i']], rtol=1e-12, atol=1e-12 * (np.abs(A[o['i']]).max() + abs(o['v'])) if k == 'offset' else 0):
                        raise Violation('component', '%s: %s' % (why, first_diff(N[o['i']], E[o['i']])))
                    objs[j] = (d, b, N)
            elif k == 'refill':
                # a new set of coordinates as drawn, then cleaned
                why = 'refill %s n=%d' % (o['d'], n)
                with Draws(o['s'], o['p'], ['rep', 0.0, .5, .25, NEAR1, TINY], ['rep', 0.0, 9.0, -1e-300, .5], limit=n, gap=3):
                    st, v = attempt(d.make_unif_distrib if o['d'] == 'uniform' else d.make_gauss_distrib, budget=20_000_000)
                if st != 'ok':
                    raise Violation('raises', '%s raises %r' % (why, v))
                N = np.array(d.get_phase_space_6d().get_array_6d())
                shape(why, N, o['d'], d.get_max_rms_fac(), o['p'] == 0)
                st, v = attempt(d.clean_phase_space_6d)
                if st != 'ok':
                    raise Violation('raises', '%s: cleaning raises %r' % (why, v))
                N = np.array(d.get_phase_space_6d().get_array_6d())
                normal(why, N, n)
                objs[j] = (d, b, N)
            elif k in ('twiss', 'stats'):
                mean, C = moments(A)
                s = np.sqrt(np.diag(C))
                if k == 'stats':
                    av, rm = d.calc_averages_6d(), d.calc_rms_values_6d()
                    sc = np.abs(A).max(1)
                    if (np.abs(av - mean) > 1e-11 * sc).any() or (np.abs(rm - s) > 1e-7 * s + 1e-11 * sc).any():
                        raise Violation('statistics', 'averages %r rms %r, expected %r %r' % (av, rm, mean, s))
                else:
                    out = {}
                    st, v = attempt(lambda: d.calc_twiss6d(out))
                    sc = (np.abs(mean) / (s + 1e-300)).max()
                    if st == 'ok' and sc < 1e4:
                        for p in range(3):
                            c = C[2 * p:2 * p + 2, 2 * p:2 * p + 2]
                            e2 = c[0, 0] * c[1, 1] - c[0, 1] ** 2
                            if not e2 > 0:
                                continue
                            e = math.sqrt(e2)
                            g = out['twiss_' + 'xyz'[p]]
                            w = np.array([-c[0, 1] / e, c[0, 0] / e, e])
                            x = np.array([g.get_alpha_rms(), g.get_beta_rms(), g.get_emit_rms()])
                            t2 = 1e-7 * (1 + w[0] ** 2)
                            if (np.abs(x - w) > t2 * np.array([1 + abs(w[0]), w[1], w[2]])).any():
                                raise Violation('analysis', 'Twiss parameters of plane %d are %r, expected %r' % (p, x, w))
                    elif st != 'ok' and sc < 1e4 and (s > 0).all():
                        raise Violation('raises', 'calc_twiss6d raises %r' % (v,))
            others(-1, why)
    return ev


def shrink(case):
    yield from drop_items(case, ('ops',))
    for i, o in enumerate(case['ops']):
        if 'n' in o:
            yield from shrink_int(case, ('ops', i, 'n'), 20)
            if o['p']:
                yield set_at(case, ('ops', i, 'p'), 0.0)
            for q in range(3):
                if o['tw'][q] != {'a': 0.0, 'b': 1.0, 'e': 1.0}:
                    yield set_at(case, ('ops', i, 'tw', q), {'a': 0.0, 'b': 1.0, 'e': 1.0})
            if o['s'] > 2:
                yield set_at(case, ('ops', i, 's'), o['s'] % 3)
