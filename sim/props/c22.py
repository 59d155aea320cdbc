"""C22: a nonlinear insert always reflects its settings, whatever happened to it before."""
import json, math
import numpy as np
from core import *
import core

DEFAULT = {'t': .1, 'c': .01, 'num_slices': 20}


def setup():
    import rsbeams.rslattice.nonlinear


def setting(r, name=None):
    name = name or r.choice(['length', 'phase', 't', 'c', 'num_slices'])
    v = {'length': lambda: r.choice([1.8, 1, 2.0, 1e-3, 150, r.uniform(.1, 20)]), 'phase': lambda: r.choice([.3, .25, .1, r.uniform(.02, .48), r.choice([.6, .75, 1.3, -.2, 2.1])]),
         't': lambda: r.choice([0.0, .1, .4, -.2, r.uniform(-.5, .5)]), 'c': lambda: r.choice([0, 0.0, .01, .009, r.uniform(1e-4, .1)]),
         'num_slices': lambda: r.choice([1, 2, 20, 7, r.randint(1, 60), r.choice([64, 100, 257])])}[name]()
    return [name, v]


def gen(r, i, tier):
    ins = []
    for _ in range(r.randint(1, 3)):
        d = {'length': setting(r, 'length')[1], 'phase': setting(r, 'phase')[1]}
        for k in DEFAULT:
            if r.random() < .5:
                d[k] = setting(r, k)[1]
        ins.append(d)
    ops = []
    for _ in range(r.randint(4, 24)):
        k = choose(r, [(6, 'set'), (6, 'gen'), (3, 'madx'), (1, 'badc'), (.5, 'badnew'), (1, 'badgen'), (1, 'interrupt'), (.5, 'new'), (.7, 'spoil')])
        o = {'k': k, 'i': r.randrange(len(ins)), 'line': r.randint(0, 12)}
        if k == 'set':
            o['s'] = setting(r)
        if k in ('badc', 'badnew'):
            o['v'] = r.choice([-1, -.01, -1e-300, '-inf'])
        if k == 'badgen':
            o['v'] = r.choice(['few', None, 0])
        ops.append(o)
    return {'ins': ins, 'ops': ops}


def expected(s):
    """The documented arrays for these settings."""
    L, ph, t, c, n = s['length'], s['phase'], s['t'], s['c'], s['num_slices']
    f0 = L / 4 * (1 + 1 / math.tan(math.pi * ph)**2)
    sv = np.array([L / n * (j + .5) for j in range(n)])
    beta = L * (1 - sv * (L - sv) / L / f0) / math.sqrt(1 - (1 - L / 2 / f0)**2)
    cn = c * np.sqrt(beta)
    return {'beta0': np.array(L / math.sqrt(1 - (1 - L / 2 / f0)**2)), 's_vals': sv, 'betas': beta, 'cnll': cn, 'knll': t * L / n / beta**2 * cn**2}


def compare(why, ob, want):
    for k, w in want.items():
        g = np.asarray(getattr(ob, k, None), dtype=object)
        if g.shape != w.shape:
            raise Violation('stale', '%s: %s has shape %s, expected %s' % (why, k, g.shape, w.shape))
        if not np.allclose(g.astype(float), w, rtol=1e-9, atol=1e-300):
            raise Violation('stale', '%s: %s is %s, expected %s' % (why, k, g[:4], w[:4]))


def elements(ob, why, want):
    import re
    st, el = attempt(lambda: ob.create_madx())
    if st != 'ok':
        raise Violation('raises', '%s: create_madx raises %r' % (why, el))
    if len(el) != len(want['knll']):
        raise Violation('madx', '%s: %d MAD-X elements, expected %d' % (why, len(el), len(want['knll'])))
    for j, e in enumerate(el):
        m = re.fullmatch(r'\s*nllens\s*,\s*knll\s*:?=\s*(\S+)\s*,\s*cnll\s*:?=\s*(\S+?)\s*;\s*', e)
        if not m or not all(math.isclose(float(a), b, rel_tol=1e-9, abs_tol=1e-300) for a, b in zip(m.groups(), (want['knll'][j], want['cnll'][j]))):
            raise Violation('madx', '%s: MAD-X element %d is %r, expected strengths %r, %r' % (why, j, e, want['knll'][j], want['cnll'][j]))


def settings_of(ob):
    return {k: getattr(ob, k) for k in ('length', 'phase', 't', 'c', 'num_slices')}


def run(case):
    from rsbeams.rslattice.nonlinear import NonlinearInsert
    obs, sets, done = [], [], []
    held = []                       # arrays handed out and their content

    def new(d):
        return NonlinearInsert(d['length'], d['phase'], **{k: v for k, v in d.items() if k in DEFAULT})
    for d in case['ins']:
        obs.append(new(d))
        sets.append(dict(DEFAULT, **d))
        done.append(None)
    ev = []
    for n, o in enumerate(case['ops']):
        STAT['runs'] += 1
        k, i = o['k'], o['i']
        ob = obs[i]
        why = '%s of insert %d %s (before: %s)' % (k, i, sets[i], [x['k'] for x in case['ops'][:n] if x['i'] == i][-6:])
        if k == 'new':
            obs[i] = new(case['ins'][i])
            sets[i] = dict(DEFAULT, **case['ins'][i])
            done[i] = None
        elif k == 'set':
            st, v = attempt(lambda: setattr(ob, o['s'][0], o['s'][1]))
            if st != 'ok':
                raise Violation('refused', '%s: setting %s to %r raises %r' % (why, o['s'][0], o['s'][1], v))
            sets[i][o['s'][0]] = o['s'][1]
        elif k == 'badc':
            st, v = attempt(lambda: setattr(ob, 'c', float(o['v'])))
            fired('refused_setting')
            if st == 'ok' or not isinstance(v, ValueError):
                raise Violation('accepted', '%s: setting c to %r gives %s %r' % (why, o['v'], st, v))
        elif k == 'badnew':
            st, v = attempt(lambda: new(dict(case['ins'][i], c=float(o['v']))))
            fired('refused_insert')
            if st == 'ok' or not isinstance(v, ValueError):
                raise Violation('accepted', '%s: creating an insert with c = %r gives %s %r' % (why, o['v'], st, v))
        elif k == 'badgen':
            ob.num_slices = o['v']
            st, v = attempt(ob.generate_sequence)
            fired('refused_generation')
            if st == 'ok':
                raise Violation('accepted', '%s: generating %r slices returns normally' % (why, o['v']))
            ob.num_slices = sets[i]['num_slices']
            done[i] = None
        elif k == 'interrupt':
            prev, left = core._hook, [o['line']]

            def hook(code, line):
                left[0] -= 1
                if left[0] == -1:
                    fired('interrupt')
                    raise KeyboardInterrupt('injected')
            core.set_line_hook(hook)
            try:
                ob.generate_sequence()
                done[i] = expected(sets[i])
            except KeyboardInterrupt:
                done[i] = None
            finally:
                core.set_line_hook(prev)
        elif k == 'gen':
            st, v = attempt(ob.generate_sequence)
            if st != 'ok':
                raise Violation('raises', '%s raises %r' % (why, v))
            done[i] = expected(sets[i])
            for a in ('s_vals', 'betas', 'knll', 'cnll'):
                x = getattr(ob, a)
                held.append([x, np.array(x).tobytes(), '%s of operation %d' % (a, n)])
        elif k == 'madx' and done[i]:
            elements(ob, why, done[i])
        elif k == 'spoil' and held:
            # the caller changes an array he was given: other inserts and later generations must not see it
            mine = [h for h in held if any(h[0] is getattr(ob, a, None) for a in ('s_vals', 'betas', 'knll', 'cnll'))]
            if mine:
                mine[0][0][:] = -1
                mine[0][1] = np.array(mine[0][0]).tobytes()
                done[i] = None
        for j, s in enumerate(sets):
            g = settings_of(obs[j])
            if g != s:
                raise Violation('setting', '%s: the settings of insert %d are %s, expected %s' % (why, j, g, s))
            if done[j]:
                compare(why + ', insert %d' % j, obs[j], done[j])
        for x, b, what in held:
            if np.array(x).tobytes() != b:
                raise Violation('changed', '%s changes the array %s handed out earlier' % (why, what))
        state(k, [x['k'] for x in case['ops'][max(0, n - 2):n] if x['i'] == i], sets[i]['num_slices'], o.get('s', [0])[0], sets[i]['c'] == 0)
        ev.append([k, digest([a.tolist() for a in expected(sets[i]).values()])])
    return ev


def shrink(case):
    yield from drop_items(case, ('ops',))
    for i, o in enumerate(case['ops']):
        if o['i']:
            yield set_at(case, ('ops', i, 'i'), 0)
    if len(case['ins']) > 1 and all(o['i'] < len(case['ins']) - 1 for o in case['ops']):
        yield set_at(case, ('ins',), case['ins'][:-1])
