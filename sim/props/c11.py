"""C11: beamline contents, length and positions follow every edit history."""
import json
import numpy as np
from core import *
import core, lat

LINES = ['A', 'B', 'cell', 'arc']
ELS = ['Q1', 'QF', 'D1', 'D2', 'M3', 'W1', 'q1']


def num(r):
    return r.choice([0.0, 0.25, 1.5, 1, 2, 0.1, r.uniform(0, 3), -0.5, 1e-6, 1e4])


def params(r):
    out = []
    used = set()
    for _ in range(r.randint(0, 4)):
        p = r.choice(['L', 'l', 'L', 'K1', 'k1', 'Angle', 'E1', 'n'])
        if p.lower() not in used:
            used.add(p.lower())
            out.append([p, num(r) if p.lower() == 'l' else lat.value(r)])
    return out


def optics(r):
    """Parameters of a drift or quadrupole."""
    k = ['K1', r.choice([-1, 1, -1, 1, 0]) * r.choice([1, r.uniform(.05, 4)])] if r.random() < .8 else ['k1', r.choice(['kf', 'kd', 'k0'])]
    return [x for x in ([r.choice(['L', 'l']), r.uniform(.01, 1.5)], k) if r.random() < .9]


def gen_optics(r):
    ops = []
    for _ in range(r.randint(2, 14)):
        k = choose(r, [(7, 'add'), (2.5, 'matrix'), (.4, 'line'), (1, 'editpos'), (1, 'editname'), (.5, 'set')])
        o = {'k': k, 'b': 0, 'w': None, 'mut': r.randint(0, 1)}
        if k == 'add':
            o.update(name=r.choice(ELS), type=r.choice(['drift', 'QUADRUPOLE', 'quadrupole ', 'Drift']), p=optics(r))
        if k == 'line':
            o['name'] = r.choice(LINES)
            o['b'] = r.choice([0, 1])
        if k in ('editpos', 'editname', 'set'):
            o.update(name=r.choice(ELS), at=frac(r, 4), p=optics(r) or [['L', 0.5]], lst=r.randint(0, 1))
        ops.append(o)
    return {'ops': ops + [{'k': 'matrix', 'b': 0, 'w': None}]}


def gen(r, i, tier):
    if r.random() < .04:
        return gen_optics(r)
    ops = []
    for _ in range(r.randint(5, 40 if tier == 'quick' else 80)):
        k = choose(r, [(8, 'add'), (2.5, 'sub'), (3, 'line'), (2, 'editpos'), (2, 'editname'), (.5, 'badpos'), (.4, 'badkind'), (.5, 'readonly'), (.8, 'set'), (.8, 'dict')])
        o = {'k': k, 'b': r.choice([0, 0, 0, 1]), 'w': frac(r, 4) if r.random() < .5 else None, 'mut': r.randint(0, 1)}
        if k in ('add', 'sub'):
            o.update(name=r.choice(ELS), type=r.choice(lat.TYPES), p=params(r))
        if k == 'line':
            o['name'] = r.choice(LINES)
        if k in ('editpos', 'editname', 'badpos', 'set', 'dict'):
            o['name'] = r.choice(ELS)
            o['how'] = r.choice(['del', 'pop', 'popnone', 'setdefault', 'update'])
            o['at'] = frac(r, 4)
            o['p'] = params(r) or [['L', num(r)]]
            o['lst'] = r.randint(0, 1)
        if k == 'readonly':
            o['what'] = r.choice(['length', 'edge', 'beamline'])
        ops.append(o)
    return {'ops': ops}


class MEl:
    def __init__(self, name, typ, p):
        self.name, self.type, self.par = name, typ.lower().strip(), {}
        for k, v in p:
            self.par[k.lower()] = v


class MLine:
    def __init__(self, name):
        self.name, self.els, self.lines, self.seq = name, {}, {}, []

    def flat(self):
        for x in self.seq:
            if isinstance(x, MLine):
                yield from x.flat()
            else:
                yield x


def pairs(real, model, out, depth=0):
    """All (library line, model line) pairs reachable."""
    out.append((real, model))
    for nm in model.lines:
        pairs(real.lines[nm], model.lines[nm], out)
    return out


def transfer(els, values):
    """Transfer matrix of the elements, or None where there is none."""
    M, scale, names = np.eye(4, dtype=complex), 1.0, []
    for e in els:
        if isinstance(e, MLine) or e.type not in ('drift', 'quadrupole'):
            return None
        for v in e.par.values():
            if isinstance(v, str) and v not in names:
                names.append(v)
        L, K = e.par.get('l'), e.par.get('k1')
        if L is None or (e.type == 'quadrupole' and K is None):
            return None
        if e.type == 'drift':
            m = np.array([[1, L], [0, 1]])
            T = np.kron(np.eye(2), m)
        else:
            K = values.get(K, K)
            T = np.zeros((4, 4), complex)
            for j, k in ((0, -K), (2, K)):
                q = np.sqrt(complex(k))
                T[j:j + 2, j:j + 2] = [[np.cosh(q * L), np.sinh(q * L) / q if q else L], [q * np.sinh(q * L), np.cosh(q * L)]]
        M = T @ M
        scale *= 1 + np.abs(T).max()
    return M, scale, names


def matrix(line, ml, why):
    values = {'kf': 1.25, 'kd': -0.75, 'k0': 0.0}
    want = transfer(ml.seq, values) if ml.seq else None
    st, v = attempt(lambda: line.generate_matrix())
    if want is None:
        return st
    if st == 'raise':
        raise Violation('raises', '%s: generate_matrix raises %r' % (why, v))
    for again in (0, 1):
        if want[2]:
            fun, v = v
            num = np.array(fun(*[(float, complex)[again](values[x]) for x in want[2]]), complex)
        else:
            num = np.array(v.tolist(), complex)
        if num.shape != (4, 4) or not np.all(np.abs(num - want[0]) <= 1e-9 * want[1]):
            raise Violation('matrix', '%s: the transfer matrix is %s, expected %s%s' % (why, num.tolist(), want[0].tolist(), ' (second time)' * again))
        v = line.generate_matrix()
    # the matrices of the elements one by one
    parts = line.generate_matrix(concatenate=False)
    if want[2]:
        parts = parts[1]
    if len(parts) != len(ml.seq):
        raise Violation('matrix', '%s: %d matrices of elements, the line has %d' % (why, len(parts), len(ml.seq)))
    for g, e in zip(parts, ml.seq):
        w = transfer([e], values)
        num = np.array(g.subs(values).tolist(), complex)
        if not np.all(np.abs(num - w[0]) <= 1e-9 * w[1]):
            raise Violation('matrix', '%s: the matrix of %s is %s, expected %s' % (why, e.name, num.tolist(), w[0].tolist()))
    return 'ok'


def run(case):
    from rsbeams.rslattice.Beamline import StructuredBeamline
    tops = [StructuredBeamline('top0'), StructuredBeamline('top1')]
    mods = [MLine('top0'), MLine('top1')]
    ident = {}                     # id(model element) -> library element
    ev = []

    def verify(why):
        for t, m in zip(tops, mods):
            def walk(line, mline, at):
                if len(line.sequence) != len(mline.seq):
                    raise Violation('contents', '%s: %s has %d entries, expected %d' % (why, at, len(line.sequence), len(mline.seq)))
                for i, (g, w) in enumerate(zip(line.sequence, mline.seq)):
                    if isinstance(w, MLine):
                        if not hasattr(g, 'sequence') or g.name != w.name:
                            raise Violation('contents', '%s: %s[%d] is not sub-line %s' % (why, at, i, w.name))
                        walk(g, w, '%s[%d]' % (at, i))
            walk(t, m, 'line')
            got, want = list(t.get_beamline_elements()), list(m.flat())
            if [e.name for e in got] != [e.name for e in want]:
                raise Violation('order', '%s: elements are %s, expected %s' % (why, [e.name for e in got], [e.name for e in want]))
            pos, total, edges = 0.0, 0.0, {}
            for g, w in zip(got, want):
                if ident.setdefault(id(w), g) is not g:
                    raise Violation('sharing', '%s: element %s is not the shared one' % (why, w.name))
                if g.type != w.type:
                    raise Violation('type', '%s: element %s is of type %r, expected %r' % (why, w.name, g.type, w.type))
                if set(g.parameters) != set(w.par) or any(not lat.same(g.parameters[k], v) for k, v in w.par.items()):
                    raise Violation('parameters', '%s: element %s has parameters %r, expected %r' % (why, w.name, dict(g.parameters), w.par))
                for k, v in w.par.items():
                    if not (lat.same(g.parameters[k.upper()], v) and lat.same(g.parameters[k.title()], v)):
                        raise Violation('case', '%s: parameter %s of %s depends on the case of its name' % (why, k, w.name))
                    for x in (k, k.upper(), k.title()):
                        if x not in g.parameters or not lat.same(g.parameters.get(x), v):
                            raise Violation('case', '%s: parameter %s of %s is not found as %s' % (why, k, w.name, x))
                if 'Zq' in g.parameters or g.parameters.get('Zq', 3) != 3:
                    raise Violation('parameters', '%s: element %s seems to have any parameter' % (why, w.name))
                if id(w) not in edges:
                    edges[id(w)] = (g, total)
                total += w.par.get('l', 0)
            if len(set(map(id, want))) != len(set(map(id, got))):
                raise Violation('sharing', '%s: %d distinct elements, expected %d' % (why, len(set(map(id, got))), len(set(map(id, want)))))
            scale = 1e-12 * (1 + sum(abs(w.par.get('l', 0)) for w in want))
            if not abs(t.length - total) <= scale:
                raise Violation('length', '%s: length is %r, the elements sum up to %r' % (why, t.length, total))
            for g, e in edges.values():
                if not abs(g.edge - e) <= scale:
                    raise Violation('edge', '%s: edge of %s is %r, expected %r' % (why, g.name, g.edge, e))
                if g.beamline is not t:
                    raise Violation('edge', '%s: element %s refers to another beamline' % (why, g.name))
    for o in case['ops']:
        k = o['k']
        STAT['runs'] += 1
        allp = pairs(tops[o['b']], mods[o['b']], [])
        line, ml = allp[0] if o['w'] is None else allp[int(o['w'] * len(allp))]
        why = '%s %s in line %s' % (k, {x: o[x] for x in o if x not in 'kbw'}, ml.name)
        p = {a: v for a, v in o.get('p', [])}
        st = 'ok'
        if k == 'add':
            line.add_element(o['name'], o['type'], p)
            if o['name'] not in ml.els:
                ml.els[o['name']] = MEl(o['name'], o['type'], o['p'])
            ml.seq.append(ml.els[o['name']])
        elif k == 'sub':
            st, v = attempt(lambda: line.add_element(o['name'], o['type'], p, subline=True))
            if ml.seq and isinstance(ml.seq[-1], MLine):
                if st == 'raise':
                    raise Violation('raises', '%s raises %r' % (why, v))
                if o['name'] not in ml.els:
                    ml.els[o['name']] = MEl(o['name'], o['type'], o['p'])
                ml.seq[-1].seq.append(ml.els[o['name']])
            else:
                fired('refused_subline')
                if st == 'ok':
                    raise Violation('accepted', '%s: there is no sub-line at the end' % why)
        elif k == 'line':
            line.add_beamline(o['name'])
            if o['name'] not in ml.lines:
                ml.lines[o['name']] = MLine(o['name'])
            ml.seq.append(ml.lines[o['name']])
        elif k in ('editpos', 'editname', 'badpos', 'set'):
            keys, vals = [a for a, _ in o['p']], [v for _, v in o['p']]
            if not o['lst']:
                keys, vals = keys[:1], vals[:1]
            arg = (keys, vals) if o['lst'] else (keys[0], vals[0])
            if k == 'editname':
                hit = [x for x in ml.seq if not isinstance(x, MLine) and x.name == o['name']]
                line.edit_element(o['name'], *arg, warnings=False)
            elif k == 'editpos':
                if not ml.seq:
                    continue
                at = int(o['at'] * len(ml.seq))
                hit = [ml.seq[at]]
                if isinstance(hit[0], MLine):
                    hit = []
                    st, v = attempt(lambda: line.edit_element(at, *arg, warnings=False))
                    fired('refused_edit_of_line')
                    if st == 'ok':
                        raise Violation('accepted', '%s: position %d is a sub-line' % (why, at))
                else:
                    line.edit_element(at, *arg, warnings=bool(o['at'] < .3))
            elif k == 'set':
                hit = [x for x in ml.seq if not isinstance(x, MLine)][:1]
                for x in hit:
                    for a, v in zip(keys, vals):
                        line.sequence[ml.seq.index(x)].parameters[a] = v
            else:
                hit = []
                st, v = attempt(lambda: line.edit_element(len(ml.seq) + int(o['at'] * 9), *arg, warnings=False))
                fired('refused_position')
                if st == 'ok':
                    raise Violation('accepted', '%s: no such position' % why)
            for x in hit:
                for a, v in zip(keys, vals):
                    x.par[a.lower()] = v
        elif k == 'dict':
            hit = [x for x in ml.seq if not isinstance(x, MLine)][:1]
            for x in hit:
                d = line.sequence[ml.seq.index(x)].parameters
                if o['how'] == 'update':
                    d.update(dict(o['p']))
                    x.par.update((a.lower(), v) for a, v in o['p'])
                for a, v in o['p'] if o['how'] != 'update' else []:
                    had, old = a.lower() in x.par, x.par.get(a.lower())
                    if o['how'] == 'setdefault':
                        st, g = attempt(lambda: d.setdefault(a, v))
                        w = x.par.setdefault(a.lower(), v)
                    elif o['how'] == 'popnone':
                        st, g = attempt(lambda: d.pop(a, None))
                        w = x.par.pop(a.lower(), None)
                    else:
                        st, g = attempt(lambda: d.pop(a) if o['how'] == 'pop' else d.__delitem__(a))
                        x.par.pop(a.lower(), None)
                        w = old if o['how'] == 'pop' else None
                        if st != ('ok' if had else 'raise'):
                            raise Violation('parameters', '%s: removing %s gives %s %r' % (why, a, st, g))
                        if st == 'raise':
                            st = 'ok'
                            continue
                    if st != 'ok' or not (g is w or lat.same(g, w)):
                        raise Violation('parameters', '%s: %s of %s gives %s %r, expected %r' % (why, o['how'], a, st, g, w))
        elif k == 'matrix':
            st = matrix(line, ml, why)
        elif k == 'badkind':
            st, v = attempt(lambda: line.edit_element(1.5, 'L', 1.0))
            fired('refused_kind')
            if st == 'ok':
                raise Violation('accepted', 'an element designated by 1.5 is accepted')
        else:
            els = [e for e in line.get_beamline_elements()]
            obj = line if o['what'] == 'length' else els[0] if els else None
            if obj is not None:
                st, v = attempt(lambda: setattr(obj, o['what'], 3.0))
                fired('refused_assignment')
                if st == 'ok':
                    raise Violation('accepted', 'assigning %s is accepted' % o['what'])
        if o.get('mut'):           # the caller goes on using what was handed over
            for d in ([p] + ([keys, vals] if k in ('editpos', 'editname', 'badpos', 'set') else [])):
                if isinstance(d, dict):
                    for a in list(d):
                        d[a] = 77.0
                    d['L'] = 55.0
                    d['more'] = 1
                else:
                    d[:] = ['zz', 9.5, 8.5]
        verify(why)
        ev.append([k, st])
        state(k, o.get('name'), o['w'] is None, st, [type(x).__name__ for x in ml.seq][-3:], len(allp))
    return ev


def shrink(case):
    yield from drop_items(case, ('ops',))
    for i, o in enumerate(case['ops']):
        if o['w'] is not None:
            yield set_at(case, ('ops', i, 'w'), None)
        if o['b']:
            yield set_at(case, ('ops', i, 'b'), 0)
        if o.get('p'):
            yield set_at(case, ('ops', i, 'p'), o['p'][:1])
