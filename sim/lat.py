"""Histories of beamline building operations and their reference model."""
import numpy as np
from core import choose, Violation

WORDS = ['Q1', 'q1', 'QF', 'D_1', 'B.2', 'm:3', 'W-1', 'drift_long_name_000001', '1e3', '7', 'yes', 'null', 'No', 'off', '0x1F', '1_000', '12:30:00',
         '~', 'a b', 'x#1', "it's", 'é', 'true', '.5', '-', '=', 'name', 'type', '[q]', '{q}', 'a: b', '- q', '%SPOS', '?x', '&a', '*b', '!t', '@at', 'tab\tq', '1.0e+5', '2024-01-02', 'NaN', '.inf']
SAFE = ['Q1', 'QF', 'D1', 'B2', 'M3', 'W1', 'K4', 'S5']
PARS = ['l', 'L', 'k1', 'K1', 'Angle', 'E1', 'fint', 'order', 'FILENAME', 'n_kicks', 'tilt', 'volt', 'y', 'on', '1']
TYPES = ['drift', 'QUADRUPOLE', ' sbend', 'Marker', 'rfca', 'watch ', 'kicker']
FLOATS = [0.0, -0.0, 1.0, -1.5, 1e22, 1e-9, 1 / 3, 123456789.123456789, 5e-324, 1.7976931348623157e308, 2.5e-7, 1e5, -3e16, 0.1, 1e16]


def value(r, text=True):
    k = choose(r, [(4, 'f'), (2, 'i'), (2 if text else 0, 's'), (.4, 'b'), (.3 if text else 0, 'x'), (.2 if text else 0, 'long')])
    if k == 'f':
        return r.choice(FLOATS) if r.random() < .5 else r.uniform(-5, 5) * 10.0 ** r.randint(-9, 9)
    if k == 'i':
        return r.choice([0, 1, -1, 7, 10**6, 2**31, -2**40, 10**20])
    if k == 'b':
        return r.random() < .5
    if k == 'x':
        return r.choice(['', ' ', '  lead', 'trail ', 'two\nlines', 'end\n', '\n', 'tab\there', 'quote"d', "it's", 'back\\slash', 'a: b: c', '# no comment', 'é', '%'])
    if k == 'long':
        return ' '.join('word%d' % j for j in range(r.randint(15, 60)))
    return r.choice(WORDS)


def gen_params(r, numeric_l=True):
    out = []
    used = set()
    if r.random() < .7:
        out.append([r.choice(['L', 'l']), r.choice([0.0, 0.25, 1.5, r.uniform(0, 3), 1, 2])])
        used.add('l')
    for _ in range(r.randint(0, 4)):
        p = r.choice(PARS)
        if p.lower() in used:
            continue
        used.add(p.lower())
        out.append([p, value(r)])
    return out


def gen_tree(r, depth=0, nasty=True):
    """Nested description: ['e', name, type, params] | ['l', name, [..]]"""
    out = []
    for _ in range(choose(r, [(.5, 0), (5, r.randint(1, 6)), (1, r.randint(7, 15))])):
        if depth < 3 and r.random() < .25:
            out.append(['l', r.choice(['A', 'B', 'cell', 'arc', 'C.1', 'line 2']) + (str(depth) if r.random() < .5 else ''), gen_tree(r, depth + 1, nasty)])
        else:
            out.append(['e', r.choice(WORDS if nasty and r.random() < .5 else SAFE), r.choice(TYPES), gen_params(r)])
    return out


def build(line, tree):
    """Build with the library; a repeated line name inserts the existing line."""
    for t in tree:
        if t[0] == 'e':
            line.add_element(t[1], t[2], {k: v for k, v in t[3]})
        else:
            known = t[1] in line.lines
            line.add_beamline(t[1])
            if not known:
                build(line.sequence[-1], t[2])


def model_of(tree):
    """Expected nesting: list of (name, type, {lower: value}) or list"""
    els, lines, seq = {}, {}, []
    for t in tree:
        if t[0] == 'e':
            if t[1] not in els:
                els[t[1]] = (t[1], t[2].lower().strip(), {k.lower(): v for k, v in t[3]})
            seq.append(els[t[1]])
        else:
            if t[1] not in lines:
                lines[t[1]] = model_of(t[2])
            seq.append(lines[t[1]])
    return seq


def same(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, float) or isinstance(b, float):
        try:
            return type(a) in (int, float) and type(b) in (int, float) and (a == b or a != a and b != b)
        except TypeError:
            return False
    return type(a) == type(b) and a == b


def diff(line, want, where=''):
    """None or the first difference between a StructuredBeamline and the expected nesting."""
    seq = line.sequence
    if len(seq) != len(want):
        return '%sline has %d entries, expected %d' % (where, len(seq), len(want))
    for i, (g, w) in enumerate(zip(seq, want)):
        at = '%s[%d]' % (where, i)
        if isinstance(w, list):
            if not hasattr(g, 'sequence'):
                return '%s is an element, expected a sub-line' % at
            d = diff(g, w, at)
            if d:
                return d
        else:
            if hasattr(g, 'sequence'):
                return '%s is a sub-line, expected element %r' % (at, w[0])
            if g.name != w[0] or type(g.name) != str:
                return '%s is named %r, expected %r' % (at, g.name, w[0])
            if g.type != w[1]:
                return '%s (%s) is of type %r, expected %r' % (at, g.name, g.type, w[1])
            got = dict(g.parameters)
            if set(got) != set(w[2]):
                return '%s (%s) has parameters %s, expected %s' % (at, g.name, sorted(got), sorted(w[2]))
            for k in w[2]:
                if not same(got[k], w[2][k]):
                    return '%s (%s): parameter %s is %r, expected %r' % (at, g.name, k, got[k], w[2][k])
    return None


def flat(want):
    for w in want:
        if isinstance(w, list):
            yield from flat(w)
        else:
            yield w


def shrink_tree(tree):
    """Smaller trees."""
    for i in range(len(tree)):
        yield tree[:i] + tree[i + 1:]
    for i, t in enumerate(tree):
        if t[0] == 'l':
            yield tree[:i] + t[2] + tree[i + 1:]
            for s in shrink_tree(t[2]):
                yield tree[:i] + [['l', t[1], s]] + tree[i + 1:]
        else:
            for j in range(len(t[3])):
                yield tree[:i] + [['e', t[1], t[2], t[3][:j] + t[3][j + 1:]]] + tree[i + 1:]
            if t[1] not in SAFE:
                yield tree[:i] + [['e', 'Q1', t[2], t[3]]] + tree[i + 1:]
