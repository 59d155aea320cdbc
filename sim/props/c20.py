"""C20: a kinematic converter gives the same answer every time it is asked."""
import json, math, sys
from io import StringIO
import numpy as np
from core import *
import core

QUANT = ['momentum', 'velocity', 'energy', 'kenergy', 'betagamma', 'brho', 'beta', 'gamma']
C, E = 299792458.0, 1.602176634e-19
FLAG = {'momentum': '-p', 'velocity': '-v', 'energy': '-E', 'kenergy': '-KE', 'betagamma': '-bg', 'brho': '-r', 'beta': '-b', 'gamma': '-g'}


def setup():
    import rsbeams.rsstats.kinematic


def config(r):
    q = r.choice(QUANT)
    iu, ou, mu = (r.choice(['eV', 'SI', 'eV']) for _ in range(3))
    m_ev = r.choice([None, None, 938.272e6, 510998.95, 1.0e9, float('%.3e' % 10 ** r.uniform(-3, 12))])
    g = r.choice([1.5, 2.0, 10.0, 1 + 10 ** r.uniform(-3, 4)])
    mass = m_ev or 510998.95
    bg = math.sqrt(g * g - 1)
    v = {'momentum': bg * mass, 'velocity': bg / g * C, 'energy': g * mass, 'kenergy': (g - 1) * mass, 'betagamma': bg, 'brho': bg * mass / C, 'beta': bg / g, 'gamma': g}[q]
    if iu == 'SI':
        v *= {'momentum': E / C, 'energy': E, 'kenergy': E}.get(q, 1)
    if m_ev and mu == 'SI':
        m_ev *= E / C**2
    return {'q': q, 'v': v, 'mass': m_ev, 'mu': mu, 'iu': iu, 'ou': ou, 'cli': r.random() < .2, 'np': r.random() < .2}


def gen(r, i, tier):
    convs = [config(r) for _ in range(r.randint(1, 4))]
    if r.random() < .3:
        convs.append(dict(convs[0], ou='SI' if convs[0]['ou'] == 'eV' else 'eV'))
    ops = []
    for _ in range(r.randint(4, 20)):
        k = choose(r, [(8, 'call'), (2, 'spoil'), (1, 'new'), (1, 'noprint'), (1, 'interrupt'), (.5, 'bad')])
        ops.append({'k': k, 'c': r.randrange(len(convs)), 'silent': r.random() < .6, 'at': r.randint(0, 30), 'line': r.randint(0, 60), 'how': r.choice(['value', 'clear', 'pop', 'extra', 'all'])})
    return {'convs': convs, 'ops': ops, 'lazy': r.random() < .5}


def make(K, c):
    v = np.float64(c['v']) if c['np'] else c['v']
    if c['cli']:
        argv = sys.argv
        sys.argv = ['kinematic', FLAG[c['q']], repr(float(c['v'])), '--mass_unit', c['mu'], '--unit', c['iu'], '--output_unit', c['ou']] + \
            (['-m', repr(float(c['mass']))] if c['mass'] else [])
        try:
            return K.Converter(start_parser=K.parser)
        finally:
            sys.argv = argv
    kw = {c['q']: v, 'mass_unit': c['mu'], 'input_unit': c['iu'], 'output_unit': c['ou']}
    if c['mass']:
        kw['mass'] = c['mass']
    return K.Converter(**kw)


def plain(d):
    return [[k, repr(float(v)) if isinstance(v, (int, float, np.number)) else v if isinstance(v, str) or v is None else repr(v)] for k, v in sorted(d.items())]


def reference(c, d):
    """The values follow from the input by relativistic kinematics (loosely checked: what is decided here is mixing and drift)."""
    mass = c['mass'] or 510998.95
    if c['mass'] and c['mu'] == 'SI':
        mass *= C**2 / E
    v = c['v']
    if c['iu'] == 'SI':
        v /= {'momentum': E / C, 'energy': E, 'kenergy': E}.get(c['q'], 1)
    g = {'momentum': lambda: math.hypot(1, v / mass), 'velocity': lambda: 1 / math.sqrt(1 - (v / C)**2), 'energy': lambda: v / mass, 'kenergy': lambda: v / mass + 1,
         'betagamma': lambda: math.hypot(1, v), 'brho': lambda: math.hypot(1, v * C / mass), 'beta': lambda: 1 / math.sqrt(1 - v * v), 'gamma': lambda: v}[c['q']]()
    bg = math.sqrt(g * g - 1)
    s = (lambda u: u) if c['ou'] == 'SI' else (lambda u: 1)
    want = {'gamma': g, 'beta': bg / g, 'betagamma': bg, 'velocity': bg / g * C, 'momentum': bg * mass * s(E / C), 'energy': g * mass * s(E), 'kenergy': (g - 1) * mass * s(E),
            'brho': bg * mass / C}
    # the mass in the unit named beside it, every unit as requested
    units = {'p_unit': ('eV/c', 'kg * m/s'), 'e_unit': ('eV', 'J')}
    for k, (x, y) in units.items():
        if d[k].replace(' ', '') != (y if c['ou'] == 'SI' else x).replace(' ', ''):
            raise Violation('unit', 'a converter of %s gives %s %r' % (c, k, d[k]))
    iw = {'energy': ('eV', 'J'), 'kenergy': ('eV', 'J'), 'momentum': ('eV/c', 'kg*m/s'), 'velocity': ('m/s', 'm/s')}.get(c['q'], ('', ''))[c['iu'] == 'SI']
    if d['input_unit'].replace(' ', '') not in ((iw, 'T*m') if c['q'] == 'brho' else (iw,)) or d['input_type'] != c['q']:
        raise Violation('unit', 'a converter of %s reports the input as %r in %r' % (c, d['input_type'], d['input_unit']))
    f = {'eV/c^2': 1, 'kg': E / C**2}.get(d['mass_unit'])
    if f is None or not abs(float(d['mass']) - mass * f) <= 1e-8 * mass * f:
        raise Violation('mass', 'a converter of %s reports a mass of %r %s, it is %r eV/c^2' % (c, d['mass'], d['mass_unit'], mass))
    cond = 1e-8 + 1e-14 * g**2
    for k, w in want.items():
        tol = cond * abs(w) / (min(1, g - 1) if k != 'gamma' else 1)
        if not abs(float(d[k]) - w) <= tol:
            raise Violation('value', 'a converter of %s gives %s = %r, kinematics gives %r' % (c, k, d[k], w))


LINES = {'velocity': 'velocity', 'beta': 'beta', 'gamma': 'gamma', 'momentum': 'momentum', 'beta * gamma': 'betagamma', 'energy': 'energy', 'kinetic energy': 'kenergy', 'Brho': 'brho',
         'For a particle with mass': 'mass'}
UNITS = {'velocity': 'm/s', 'brho': 'T*m'}


def printed(why, text, d):
    """The printed table holds the values handed out, with their units."""
    seen = {}
    for l in text.splitlines():
        k, _, v = l.strip().rpartition(': ')
        if k in LINES:
            seen[LINES[k]] = v.split(' ', 1)
    for k in LINES.values():
        v = seen.get(k)
        unit = UNITS.get(k) or (d['e_unit'] if k in ('energy', 'kenergy') else d['p_unit'] if k == 'momentum' else d['mass_unit'] if k == 'mass' else '')
        try:
            ok = v is not None and float(v[0]) == float(d[k]) and (v[1] if len(v) > 1 else '').replace(' ', '') == unit.replace(' ', '')
        except ValueError:
            ok = False
        if not ok:
            raise Violation('printed', '%s prints %r for %s, the value is %r %s' % (why, v, k, d[k], unit))


class Broken:
    """A standard output that cannot be written to."""
    def write(self, s):
        fired('stdout_fails')
        raise OSError(28, 'No space left on device')

    def flush(self):
        pass


def run(case):
    return isolated(lambda: _run(case))


def fresh(c):
    def go():
        from rsbeams.rsstats import kinematic as K
        return plain(make(K, c)(silent=True))
    return isolated(go)


def _run(case):
    want = [fresh(c) for c in case['convs']]
    from rsbeams.rsstats import kinematic as K
    convs = [None] * len(case['convs'])
    given = []                # [result, its expected plain form]
    ev = []
    if not case['lazy']:
        convs = [make(K, c) for c in case['convs']]

    def verify(why):
        for n, (d, p) in enumerate(given):
            if plain(d) != p:
                raise Violation('changed', '%s changes result %d handed out before: %s' % (why, n, [x for x in plain(d) if x not in p]))
    for o in case['ops']:
        k, j = o['k'], o['c']
        c = case['convs'][j]
        STAT['runs'] += 1
        if convs[j] is None or k == 'new':
            convs[j] = make(K, c)
        cv = convs[j]
        why = '%s of converter %d (%s)' % (k, j, c)
        if k == 'call':
            out, sys.stdout = sys.stdout, StringIO()
            try:
                st, d = attempt(lambda: cv(silent=o['silent']) if o['silent'] or o['at'] % 2 else cv())
                text = sys.stdout.getvalue()
            finally:
                sys.stdout = out
            if st != 'ok':
                raise Violation('raises', '%s raises %r' % (why, d))
            if any(d is x for x, _ in given):
                raise Violation('shared', '%s hands out the same dictionary again' % why)
            p = plain(d)
            if p != want[j]:
                raise Violation('drift', '%s gives %s, a fresh converter gives %s' % (why, [x for x in p if x not in want[j]], [x for x in want[j] if x not in p]))
            reference(c, d)
            if o['silent']:
                if text:
                    raise Violation('printed', '%s prints %r although it was to be silent' % (why, text))
            else:
                printed(why, text, d)
            given.append([d, p])
            ev.append(digest(p))
        elif k == 'noprint':
            out, sys.stdout = sys.stdout, Broken()
            try:
                st, d = attempt(lambda: cv(silent=False))
            finally:
                sys.stdout = out
            if st == 'ok':
                raise Violation('swallowed', '%s: the output could not be written but the call returned' % why)
        elif k == 'interrupt':
            prev = core._hook
            left = [o['line']]

            def hook(code, line):
                left[0] -= 1
                if left[0] == -1:
                    fired('interrupt')
                    raise KeyError('injected interruption')
            core.set_line_hook(hook)
            try:
                d = cv(silent=True)
                given.append([d, plain(d)])
                if plain(d) != want[j]:
                    raise Violation('drift', '%s gives %s' % (why, [x for x in plain(d) if x not in want[j]]))
            except KeyError:
                pass
            finally:
                core.set_line_hook(prev)
        elif k == 'bad':
            st, d = attempt(lambda: K.Converter(gamma=2., beta=.5) if o['at'] % 3 == 0 else K.Converter() if o['at'] % 3 == 1 else K.Converter(gamma=2., output_unit='GeV'))
            if st == 'ok':
                raise Violation('accepted', 'an ambiguous or missing quantity is accepted')
        elif k == 'spoil' and given:
            g = given[o['at'] % len(given)]
            d = g[0]
            h = o['how']
            if h == 'value':
                d[sorted(d)[o['line'] % len(d)] if d else 'x'] = -1.0
            elif h == 'clear':
                d.clear()
            elif h == 'pop' and d:
                d.pop(sorted(d)[o['line'] % len(d)])
            elif h == 'extra':
                d['extra'] = lambda **k: 1
            else:
                for q in d:
                    d[q] = 7.0
            g[1] = plain(d)
            fired('caller_modifies_result')
        verify(why)
        state(k, c['q'], c['iu'], c['ou'], c['mu'], c['mass'] is None, len(given) > 3, o['silent'])
    return ev


def shrink(case):
    yield from drop_items(case, ('ops',))
    if case['lazy']:
        yield set_at(case, ('lazy',), False)
    for i, c in enumerate(case['convs']):
        for q, v in (('cli', False), ('np', False), ('mass', None), ('mu', 'eV'), ('iu', 'eV'), ('ou', 'eV')):
            if c[q] != v and not (q in ('mu', 'iu') and c['mass']):
                if q == 'iu' and c['q'] in ('momentum', 'energy', 'kenergy'):
                    continue
                yield set_at(case, ('convs', i, q), v)
