"""C16: analysing a beam never alters it."""
import json, math
import numpy as np
from core import *
import core

ANALYSES = ['avg', 'var', 'rms', 'min', 'max', 'corr', 'sigfig', 'fft', 'phase']
BEAM = ['b_avg', 'b_rms', 'b_twiss', 'b_peak', 'b_get', 'd_twiss', 'b_kin']
MODS = ['sub', 'norm', 'decor']
BMODS = ['offset', 'scale', 'clean']


def gen(r, i, tier):
    things = []
    for _ in range(r.randint(1, 3)):
        k = choose(r, [(3, 'raw'), (2, 'beam')])
        t = {'k': k, 's': r.randint(0, 10**9), 'n': choose(r, [(4, r.randint(2, 40)), (1, r.randint(41, 150)), (.6, 1), (.5, 2), (.12, r.choice([1000, 1024, 1500, 4097]))])}
        if k == 'raw':
            t.update(dt=choose(r, [(5, 'f8'), (1.3, 'i8'), (.8, 'i4'), (1, 'f4'), (.3, '>f8')]), order=r.choice(['C', 'C', 'F', 'strided', 'readonly', 'reversed']),
                     kind=r.choice(['normal', 'normal', 'offset', 'scales', 'const', 'corr', 'neg']))
        else:
            t['n'] = max(20, t['n'])
            t.update(d=r.choice(['uniform', 'gaussian']))
        things.append(t)
    ops = []
    for _ in range(r.randint(4, 16)):
        o = {'o': r.randrange(len(things)), 's': r.randint(0, 10**6)}
        if things[o['o']]['k'] == 'raw':
            o['k'] = r.choice(ANALYSES * 2 + MODS)
        else:
            o['k'] = r.choice(ANALYSES + BEAM * 2 + MODS + BMODS)
        o['i'] = r.randint(0, 5)
        o['v'] = r.choice([0.5, -2.0, 3.0, 1e-3])
        ops.append(o)
    return {'things': things, 'ops': ops}


def make_raw(t):
    r = np.random.RandomState(t['s'] % 2**32)
    n = t['n']
    a = r.standard_normal((6, n))
    if t['kind'] == 'offset':
        a += r.uniform(-100, 100, (6, 1))
    elif t['kind'] == 'scales':
        a *= 10.0 ** r.randint(-6, 7, (6, 1))
    elif t['kind'] == 'const':
        a[r.randint(0, 6)] = r.choice([0.0, 3.25])
    elif t['kind'] == 'corr':
        a[1] = .7 * a[0] + .1 * a[1]
        a[5] = -a[2] + .01 * a[5]
    elif t['kind'] == 'neg':
        a = -np.abs(a) - 1
    if t['dt'][-2] == 'i':
        a = np.round(a * 50)
    a = a.astype(t['dt'])
    o = t['order']
    if o == 'F':
        a = np.asfortranarray(a)
    elif o == 'strided':
        b = np.zeros((6, 3 * n), a.dtype)
        b[:, 1::3] = a
        a = b[:, 1::3]
    elif o == 'reversed':
        a = a[:, ::-1]
    elif o == 'readonly':
        a.flags.writeable = False
    return a


def ref(A):
    A = np.asarray(A).astype(np.longdouble)
    m = A.mean(1)
    D = A - m[:, None]
    return m.astype(float), ((D @ D.T) / A.shape[1]).astype(float)


def tolerance(A):
    A = np.asarray(A)
    eps = 1e-5 if A.dtype.itemsize == 4 and A.dtype.kind == 'f' else 1e-11
    return eps, np.abs(A).max(1).astype(float) + 1e-300


def bits(v):
    """A comparable form of any answer."""
    if isinstance(v, dict):
        return sorted((k, bits(x)) for k, x in v.items())
    if hasattr(v, 'get_alpha_rms'):
        return [float(v.get_alpha_rms()), float(v.get_beta_rms()), float(v.get_emit_rms()), float(v.get_gamma_rms())]
    if isinstance(v, np.ndarray):
        return [v.shape, [repr(float(x)) for x in v.ravel()]]
    if isinstance(v, (list, tuple)):
        return [bits(x) for x in v]
    return repr(float(v)) if isinstance(v, (int, float, np.number)) else repr(v)


def run(case):
    from rsbeams.rsstats import stats6d as S
    from rsbeams.rsptcls.RsPtclBeam6D import RsPtclBeam6D
    from rsbeams.rsptcls import phases
    import scipy.constants as sc
    T = []
    for t in case['things']:
        if t['k'] == 'raw':
            a = make_raw(t)
            T.append({'a': a, 'A': np.array(a), 'beam': None})
        else:
            np.random.seed(t['s'] % 2**32)
            b = RsPtclBeam6D(t['n'], 1e9, 1e-9, 938.272e6, t['d'], 3.0, .3, 2.0, 1e-6, -1.1, .5, 1e-5, 0.0, 1.0, 1e-3)
            T.append({'beam': b, 'A': np.array(b.get_distrib6d().get_phase_space_6d().get_array_6d())})
        T[-1]['seen'] = {}

    def arr(t):
        return t['a'] if t['beam'] is None else t['beam'].get_distrib6d().get_phase_space_6d().get_array_6d()

    def check_all(why, skip=None):
        for q, t in enumerate(T):
            if t is not skip and not (same_array(arr(t), t['A']) and arr(t).dtype == t['A'].dtype):
                raise Violation('altered', '%s alters the data of object %d (%s)' % (why, q, first_diff(arr(t), t['A'])))
    ev = []
    for o in case['ops']:
        STAT['runs'] += 1
        t = T[o['o']]
        a, k = arr(t), o['k']
        A = t['A']
        n = A.shape[1]
        beam = t['beam']
        why = '%s of %s %s array of %d particles' % (k, 'beam' if beam else 'raw', A.dtype, n)
        mean, C = ref(A)
        sd = np.sqrt(np.diag(C))
        eps, scale = tolerance(A)
        if k in MODS or k in BMODS:
            if k == 'norm' and not (sd > 1e-8 * scale).all():
                continue
            if k in MODS and A.dtype.kind != 'f' or not a.flags.writeable:
                continue
            d = beam.get_distrib6d() if beam else None
            f = {'sub': lambda: S.sub_avg6d(a), 'norm': lambda: S.normalize_rms6d(a), 'decor': lambda: S.rm_correlations6d(a), 'offset': lambda: d.offset_component(o['v'], o['i']),
                 'scale': lambda: d.multiply_component(o['v'], o['i']), 'clean': lambda: d.clean_phase_space_6d()}[k]
            if k == 'clean' and not (sd > 1e-6 * scale).all():
                continue
            st, v = attempt(f, budget=20_000_000)
            if st != 'ok':
                if k in ('decor', 'clean') and same_array(arr(t), A):
                    continue
                raise Violation('raises', '%s raises %r' % (why, v))
            N = np.array(arr(t))
            if N.shape != A.shape:
                raise Violation('shape', '%s: shape %r' % (why, N.shape))
            A8, N8 = A.astype(float), N.astype(float)
            if k == 'sub':
                E, tol = A8 - mean[:, None], 4 * eps * scale
            elif k == 'norm':
                E, tol = A8 / sd[:, None], 100 * eps * scale**2 / sd**2
            elif k in ('offset', 'scale'):
                E = A8.copy()
                E[o['i']] = E[o['i']] + o['v'] if k == 'offset' else E[o['i']] * o['v']
                tol = 1e-12 * (scale + abs(o['v']))
                for q in range(6):
                    if q != o['i'] and not same_array(N[q], A[q]):
                        raise Violation('other-component', '%s changes component %d' % (why, q))
            elif k == 'decor':
                # a rotation: lengths and angles of the particles are kept, correlations vanish
                E, tol = None, None
                G, H = A8.T @ A8, N8.T @ N8
                if np.abs(G - H).max() > 1e3 * eps * np.abs(G).max():
                    raise Violation('decorrelate', '%s: not a rotation of the particles' % why)
                m2, C2 = ref(N)
                off = np.abs(C2 - np.diag(np.diag(C2))).max()
                if off > 1e4 * eps * (np.abs(C2).max() + np.abs(m2).max() ** 2 + scale.max() ** 2 * 1e-3):
                    raise Violation('decorrelate', '%s: correlation %r is left' % (why, off))
            else:
                E, tol = None, None
                m2, C2 = ref(N)
                if np.abs(m2).max() > 1e-7 or np.abs(np.diag(C2) - 1).max() > 1e-6:
                    raise Violation('clean', '%s: mean %r, variances %r' % (why, m2, np.diag(C2)))
            if E is not None and (np.abs(N8 - E) > np.asarray(tol)[:, None]).any():
                raise Violation('outcome', '%s: %s' % (why, first_diff(N8, E)))
            t['A'] = N
            t['seen'] = {}
            check_all(why)
            state(k, n, bool(beam))
            continue
        d = beam.get_distrib6d() if beam else None
        tw = {}
        first = o['s'] // 4 % 3 * (n - 1) // 4
        turns = [(0,), (), (first, n - first), (first,), (first, n + 7), (first, -1)][o['s'] % 6 if n > 5 else 0]
        points = (a[:2, 0], a[2:4, -1]) if o['s'] % 3 else (a[:2, o['s'] % n], a[:2, (o['s'] + 1) % n])
        figs = 1 + o['s'] % 5
        turning = [{}, {'clockwise': True}, {'clockwise': False}][o['s'] % 7 % 3]
        calls = {'avg': lambda: S.calc_avg6d(a), 'var': lambda: S.calc_variance6d(a), 'rms': lambda: S.calc_rms6d(a), 'min': lambda: S.calc_min6d(a), 'max': lambda: S.calc_max6d(a),
                 'corr': lambda: S.calc_correlations6d(a), 'sigfig': lambda: S.specify_significant_figures(float(a[o['i'], 0]), figs), 'fft': lambda: phases.tune_fft(a[o['i']], *turns),
                 'phase': lambda: phases.phase_advance(*points, **turning), 'b_avg': lambda: d.calc_averages_6d(), 'b_rms': lambda: d.calc_rms_values_6d(),
                 'b_twiss': lambda: (beam.calc_twiss6d(), [beam.get_twiss2d_by_name('twiss_' + q) for q in 'xyz'])[1], 'b_peak': lambda: beam.get_peak_current_rms(),
                 'b_get': lambda: [np.array(getattr(d.get_phase_space_6d(), 'get_array_' + q)()) for q in ('x', 'xp', 'y', 'yp', 's', 'dp')],
                 'd_twiss': lambda: (d.calc_twiss6d(tw), tw)[1], 'b_kin': lambda: [beam.get_gamma0(), beam.get_beta0(), beam.get_beta0_gamma0(), beam.get_design_p_ev()]}
        st, v = attempt(calls[k], budget=20_000_000)
        check_all(why)
        if st != 'ok':
            ill = any(C[2 * p, 2 * p] * C[2 * p + 1, 2 * p + 1] - C[2 * p, 2 * p + 1] ** 2 <= 1e-9 * (scale[2 * p] * scale[2 * p + 1]) ** 2 for p in range(3))
            if k in ('b_twiss', 'd_twiss') and ill or k == 'b_peak' and sd[4] == 0:
                continue
            raise Violation('raises', '%s raises %r' % (why, v))
        b = bits(v)
        key = '%s%d/%d' % (k, o['i'], figs) if k == 'sigfig' else '%s%d%r' % (k, o['i'], turns) if k == 'fft' else '%s%r%r' % (k, o['s'] % 3 and -1 or o['s'] % n, turning) if k == 'phase' else k
        if key in t['seen'] and t['seen'][key] != b:
            raise Violation('repeat', '%s gives %r, before it gave %r' % (why, b, t['seen'][key]))
        t['seen'][key] = b
        bad = None
        v_ = np.asarray(v, dtype=float) if not isinstance(v, (dict, list)) else None
        with np.errstate(all='ignore'):
            if k in ('avg', 'b_avg'):
                bad = np.abs(v_ - mean) > 4 * eps * scale
            elif k == 'var':
                bad = np.abs(v_ - sd**2) > 1e-7 * sd**2 + 10 * eps * scale**2
            elif k in ('rms', 'b_rms'):
                bad = np.abs(v_**2 - sd**2) > 1e-7 * sd**2 + 10 * eps * scale**2
            elif k == 'min':
                bad = v_ != A.min(1).astype(float)
            elif k == 'max':
                bad = v_ != A.max(1).astype(float)
            elif k == 'corr':
                bad = np.abs(v_ - C) > 1e-7 * np.abs(C) + 10 * eps * np.outer(scale, scale)
                mean = C
            elif k == 'fft':
                h = a[o['i']][(turns or (1,))[0]:(turns + (n, n))[1] if turns else n].astype(float)
                amp = np.abs(np.exp(-2j * np.pi * np.outer(np.arange(len(h)), np.arange(len(h))) / len(h)) @ h) if len(h) < 300 else np.abs(np.fft.fft(h))
                m = v_ * len(h)
                bad = not (0 <= v_ <= .5) or abs(m - round(float(m))) > 1e-6 * len(h) or amp[round(float(m))] < amp.max() - 1e-9 * len(h) * np.abs(h).max()
            elif k == 'sigfig':
                w = float(a[o['i'], 0])
                unit = 10.0 ** (math.floor(math.log10(abs(w))) - figs + 1) if w else 1
                bad = abs(v_ - w) > (.5 + 1e-6) * unit or abs(v_ / unit - round(float(v_ / unit))) > 1e-6
            elif k == 'phase':
                w = math.atan2(points[0][1], points[0][0]) - math.atan2(points[1][1], points[1][0])
                w = -w if 'clockwise' in turning and not turning['clockwise'] else w
                fuzz = 4e-6 if a.dtype.itemsize == 4 else 1e-9
                bad = not (-fuzz <= v_ <= 2 * math.pi + fuzz) or abs(math.remainder(float(v_) - w, 2 * math.pi)) > fuzz
            elif k == 'b_get':
                bad = np.array([not same_array(x, y) for x, y in zip(v, A)])
            elif k == 'b_peak' and sd[4] > 1e-4 * scale[4]:
                g = 1e9 / 938.272e6
                w = 1e-9 * (g / math.sqrt(g * g + 1)) * sc.c / sd[4]
                bad = np.array(abs(v - w) > 1e-6 * w)
            elif k == 'b_kin':
                g = 1e9 / 938.272e6
                bad = np.abs(np.array(v) - np.array([math.sqrt(g * g + 1), g / math.sqrt(g * g + 1), g, 1e9])) > 1e-9 * np.abs(v)
            elif k in ('b_twiss', 'd_twiss'):
                vals = v if isinstance(v, list) else [v['twiss_' + q] for q in 'xyz']
                bad = []
                for p, g in enumerate(vals):
                    c = C[2 * p:2 * p + 2, 2 * p:2 * p + 2]
                    e2 = c[0, 0] * c[1, 1] - c[0, 1] ** 2
                    if e2 > 1e-5 * (scale[2 * p] * scale[2 * p + 1]) ** 2:
                        e = math.sqrt(e2)
                        bad.append(abs(g.get_emit_rms() - e) > 1e-4 * e or abs(g.get_beta_rms() - c[0, 0] / e) > 1e-4 * c[0, 0] / e or
                                   abs(g.get_alpha_rms() + c[0, 1] / e) > 1e-4 * (1 + abs(c[0, 1] / e)))
                bad = np.array(bad)
        if bad is not None and np.any(bad):
            raise Violation('statistic', '%s gives %r (mean %r, deviations %r)' % (why, b, mean, sd))
        state(k, n, bool(beam), A.dtype.str, a.flags.c_contiguous, a.flags.writeable)
        ev.append([k, b])
    return digest(ev)


def shrink(case):
    yield from drop_items(case, ('ops',))
    for i, t in enumerate(case['things']):
        yield from shrink_int(case, ('things', i, 'n'), 1 if t['k'] == 'raw' else 20)
        if t['k'] == 'raw':
            for q, w in (('order', 'C'), ('kind', 'normal'), ('dt', 'f8')):
                if t[q] != w:
                    yield set_at(case, ('things', i, q), w)
