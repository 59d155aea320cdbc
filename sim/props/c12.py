"""C12: a lattice file is loaded completely or the load raises."""
import json, random
import numpy as np
from core import *
import core, lat

FMTS = ['lte', 'lte', 'trace3d', 'tracewin', 'json']


def gen(r, i, tier):
    files = []
    for _ in range(r.choice([1, 1, 2])):
        f = {'fmt': r.choice(FMTS), 's': r.randint(0, 10**9), 'nels': r.randint(1, 14), 'nlines': r.randint(1, 5),
             'fill': r.choice([0, 0, 20, 200, 2000]), 'end': r.choice(['nl', 'none', 'comment', 'blank'])}
        if f['fmt'] == 'lte' and r.random() < .2:
            f['hard'] = r.choice(['nested', 'group', 'minus', 'minus1', 'space', 'star', 'quoted', 'last', 'lines', 'undefined', 'undefined-last'])
        if f['fmt'] == 'trace3d' and r.random() < .4:
            f['merge'] = True
        files.append(f)
    loads = []
    for _ in range(r.randint(4, 10)):
        t = choose(r, [(1.5, None), (4, 'eio'), (1, 'open'), (2, 'short'), (.5, 'missing'), (.3, 'noname'), (.3, 'dict'), (.5, 'merge')])
        loads.append({'file': r.randrange(len(files)), 't': t, 'at': frac(r, 6), 's': r.randint(0, 10**9), 'max': r.choice([0, 0, 40, 300, 2000]),
                      'sticky': r.randint(0, 1), 'err': r.choice(['EACCES', 'EMFILE', 'EIO', 'ENOENT'])})
    return {'files': files, 'loads': loads}


def numtxt(r, signed=False):
    if signed:
        return r.choice(['', '', '-', '+']) + r.choice([numtxt(r), numtxt(r), '%d' % r.randint(0, 400), '%d.' % r.randint(0, 50), '%.3e' % r.uniform(1e-4, 2e3), '.%d' % r.randint(1, 99), '%.2E' % r.uniform(0, 9)])
    return '%.*f' % (r.randint(1, 6), r.choice([0.0, 1.0, r.uniform(0, 5), r.uniform(0, 0.01) + 1e-3, r.uniform(10, 900)]))


def lname(f, k):
    # also names that begin with the names of other lines
    return ['LN%d' % k, 'LN' + 'X' * (9 - k), 'LN' + '1' * (k + 1)][f['s'] % 3]


def expression(r, known={}):
    """-> (text, value) of an expression in reverse Polish notation"""
    def arg():
        if known and r.random() < .3:
            v = r.choice(sorted(known))
            return v, known[v]
        t = numtxt(r)
        return t, float(t)
    (a, x), (b, y) = arg(), arg()
    op = r.choice(['*', '+', '-', '/', 'mult', 'sqrt', 'long'])
    if op == '/' and y == 0 or op == 'sqrt' and y < 0:
        op = '-'
    if op == 'sqrt':
        return '%s sqrt' % b, y ** .5
    if op == 'long':
        c, z = arg()
        return '%s %s %s + -' % (a, b, c), x - (y + z)
    return '%s %s %s' % (a, b, op), {'*': lambda: x * y, 'mult': lambda: x * y, '+': lambda: x + y, '-': lambda: x - y, '/': lambda: x / y}[op]()


def lattice(f):
    """-> (text, name of the line to load, expected [(name, type, {par: value})] or None, expected number of elements)"""
    r = random.Random(f['s'])
    fmt = f['fmt']
    if fmt == 'lte':
        out, els, rpn = ['! lattice of seed %d\n' % f['s']], {}, {}
        for k in range(r.randint(0, 2)):
            # also names that are part of the names of elements and parameters
            nm = r.choice(['zv%d' % k, 'zv%d' % k, 'k1', 'l', 'q%d' % k, 'd', 'kick%d' % k, 'n_kicks'])
            if nm not in rpn:
                t, rpn[nm] = expression(r)
                out.append('%% %s sto %s\n' % (t, nm))
        names = ['%s%d' % (r.choice(['Q', 'D', 'B', 'SX', 'W.', 'M:', 'k-']), k) for k in range(f['nels'])]
        for k in range(len(names)):
            if r.random() < .15:
                names[k] = 'ABCDEFGHIJKLMN'[k]
        for nm in names:
            typ = r.choice(['DRIFT', 'KQUAD', 'csbend', 'Sextupole', 'RFCA', 'EDRIFT'])
            par, txt = {}, []
            if r.random() < .12:
                typ = r.choice(['MARK', 'WATCH', 'Charge'])
                out.append('%s: %s%s\n' % ('"%s"' % nm if ':' in nm else nm, typ, r.choice(['', ' ', '! a comment, right behind', ' ! = 4'])))
                els[nm] = (nm.lower(), typ.lower(), {})
                continue
            for p in ['L'] + r.sample(['K1', 'K2', 'ANGLE', 'N_KICKS', 'E1', 'VOLT'], r.randint(0, 4)):
                k = r.random()
                if k < .15 and rpn:
                    v = r.choice(sorted(rpn))
                    par[p.lower()] = rpn[v]
                    txt.append('%s=%s' % (p, v))
                elif k < .3:
                    t, par[p.lower()] = expression(r, rpn)
                    txt.append('%s="%s"' % (p, t))
                else:
                    v = numtxt(r)
                    par[p.lower()] = float(v)
                    txt.append('%s=%s' % (p, v))
            if r.random() < .15:
                g = r.choice(['G7', 'g7', 'a,b', 'x = 1', 'A: b', 'q1.w1', '%s.w1'])
                par['group'] = g.lower()
                txt.insert(r.randint(0, len(txt)), 'GROUP="%s"' % g)
            sep = r.choice([', ', ',', ', &\n    ', ', & ! go on\n', ',&\n! between\n  '][:5 if r.random() < .3 else 3])
            q = '"' if r.random() < .3 or ':' in nm else ''
            if r.random() < .1:
                txt = [t.replace('=', r.choice([' = ', '= ', ' =']), 1) for t in txt]
            out.append('%s%s%s: %s, %s%s\n' % (q, nm, q, typ, sep.join(txt), r.choice(['', '', ' ! comment = 3, (a)', ' ! was 1.5 ! see log', '! L=2, K1=3 &', ' !!', ' ! "a', "! it's"])))
            els[nm] = (nm.lower(), typ.lower(), par)
            if r.random() < .1:
                out.append(r.choice(['\n', '! comment\n', '  ! "indented": DRIFT, L=1\n']))
        out += ['! filler line %05d with some text so that the file grows\n' % k for k in range(f['fill'])]
        lines = {}
        for k in range(f['nlines']):
            nm = lname(f, k)
            items, flat = [], []
            for _ in range(r.randint(1, 6)):
                t = r.random()
                if t < .3 and lines:
                    s = r.choice(sorted(lines))
                    n = r.choice([1, 1, 1, 2, 3])
                    items.append(('%d*' % n if n > 1 else '') + s)
                    flat += lines[s] * n
                elif t < .4 and len(names) > 1:
                    a, b = r.sample(names, 2)
                    items.append('2*(%s,%s)' % (a, b))
                    flat += [a, b, a, b]
                else:
                    s = r.choice(names)
                    n = r.choice([1, 1, 1, 2, 11])
                    items.append(('%d*' % n if n > 1 else '') + s)
                    flat += [s] * n
            if items[-1].startswith('2*('):
                items.append(names[0])
                flat.append(names[0])
            out.append('%s: %s(%s)\n' % (nm, r.choice(['LINE=', 'LINE=', 'Line =', 'LINE = ', 'line= ']), (',&\n  ' if r.random() < .2 else ',').join(items)))
            lines[nm] = flat
        h = f.get('hard')
        if h:
            # constructs the parser need not know: either they are understood or the load raises
            a, b, c = (r.choice(names) for _ in range(3))
            ln = r.choice(sorted(lines))
            txt, flat = {'nested': ('%s,2*(%s,2*(%s,%s),%s),%s' % (a, b, c, a, c, b), [a] + ([b] + [c, a] * 2 + [c]) * 2 + [b]), 'group': ('%s,(%s,%s),%s' % (a, b, c, a), [a, b, c, a]),
                         'minus': ('%s,-%s,%s' % (a, ln, b), [a] + lines[ln][::-1] + [b]), 'minus1': ('%s,-%s' % (a, b), [a, b]), 'space': ('%s, 2*%s , %s' % (a, b, c), [a, b, b, c]),
                         'star': ('%s,2 * %s,%s' % (a, b, c), [a, b, b, c]), 'quoted': ('%s,"%s",%s' % (a, ln, b), [a] + lines[ln] + [b]), 'last': ('%s,2*(%s,%s)' % (a, b, c), [a, b, c, b, c]),
                         'lines': ('%s,2*(%s,%s),%s' % (a, ln, b, c), [a] + (lines[ln] + [b]) * 2 + [c]), 'undefined': ('%s,NOSUCH,%s' % (a, b), None), 'undefined-last': ('%s,%s,3*NOSUCH' % (a, b), None)}[h]
            out.append('%s: LINE=(%s)\n' % (lname(f, f['nlines']), txt))
            lines[lname(f, f['nlines'])] = flat
        if f['end'] == 'comment':
            out.append('! the end\n')
        elif f['end'] == 'blank':
            out.append('\n\n')
        top = lname(f, f['nlines'] - (not h))
        if lines[top] is None:
            return ''.join(out), top, None, None
        exp = [els[x] for x in lines[top]]
        return ''.join(out), top, exp, len(exp)
    if fmt == 'trace3d':
        out, exp = ['&data\n', 'er= 939.3, q= -1.,\n'], []
        kinds = {1: ('drift', ['l']), 3: ('quadrupole', ['k1', 'l', 'dx', 'dy', 'of']), 9: ('edge', ['beta', 'r', 'g', 'k1', 'k2']),
                 10: ('rfca', ['volt', 'phase', 'egf', 'change_p0', 'h']), 8: ('sbend', ['angle', 'r', 'index', 'vf'])}
        conv = {'l': 1e-3, 'r': 1e-3, 'g': 1e-3, 'angle': np.pi / 180, 'beta': np.pi / 180, 'dx': 1e-3, 'dy': 1e-3, 'volt': 1e6}
        order = [r.choice(sorted(kinds)) for _ in range(f['nels'])]
        if f.get('merge'):
            # dipoles between their edges, cavities between drifts
            order = sum((r.choice([[9, 8, 9], [9, 8, 9], [1, 10, 1], [1, 10, 1, 10, 1], [1], [3]]) for _ in order), [])
        for k, t in enumerate(order, 1):
            typ, ps = kinds[t]
            vals = [numtxt(r, True) for _ in ps]
            out.append("cmt(%03d)='%s' nt(%3d)=%d, a(1,%d)= %s\n" % (k, r.choice(['elm', 'elm', '', 'front', 'omega(1)', 'bent=2', 'nt(7)=3, a(1,7)= 4.', 'A lens 12']), k, t, k, ', '.join(vals)))
            p = {a: float(v) * conv.get(a, 1) for a, v in zip(ps, vals)}
            if typ == 'sbend':
                p['l'] = abs(p['r'] * p['angle'])
            exp.append(('%03d' % k, typ, p))
            if r.random() < .1:
                out.append('; remark\n')
        out.insert(2, ''.join('; filler line %05d with some text so that the file grows\n' % k for k in range(f['fill'])))
        out.append({'nl': '&end\n', 'none': '', 'comment': '; the end\n', 'blank': '\n\n'}[f['end']])
        return ''.join(out), 'top', exp, len(exp)
    if fmt == 'tracewin':
        out, exp, freq = [], [], None
        N = {'drift': ['l', 'r', 'ry', 'rx_shift', 'ry_shift'], 'quad': ['l', 'k1', 'r', 'theta', 'g3u3', 'g4u4', 'g5u5', 'g6u6', 'gfr'],
             'dtl_cel': ['l', 'lq1', 'lq2', 'gc', 'b1', 'b2', 'volt', 'phase', 'r', 'p', 'beta_s', 't_s', 'kts', 'k2ts'], 'set_sync_phase': [],
             'ncells': ['mode', 'n', 'beta', 'volt', 'phase', 'r', 'p', 'ke0ti', 'ke0to', 'dzi', 'dzo'], 'freq': ['frequency']}
        k = 0
        for _ in range(f['nels']):
            t = r.choice(['drift', 'quad', 'dtl_cel', 'DRIFT', 'set_sync_phase', 'freq', 'ncells'])
            if t == 'ncells' and not freq:
                t = 'Freq'
            v = [numtxt(r, True) for _ in N[t.lower()]]
            if t.lower() == 'freq':
                v = ['%.3f' % r.uniform(50, 3000)]
            out.append(r.choice([' ', ' ', '   ', '\t']).join([t] + v) + '\n')
            p = dict(zip(N[t.lower()], map(float, v)))
            nm, t = 'e%d' % k, t.lower()
            k += 1
            if t == 'drift':
                exp.append((nm, 'drift', dict(p, l=p['l'] * 1e-3)))
            elif t == 'quad':
                exp.append((nm, 'quadrupole', dict(p, l=p['l'] * 1e-3)))
            elif t == 'set_sync_phase':
                exp.append((nm, 'marker', {}))
            elif t == 'freq':
                freq = p['frequency'] * 1e6
            elif t == 'ncells':
                l = p['beta'] * 299792458. / freq * p['n']
                exp.append((nm + 'cav', 'rfca', {'l': l, 'volt': p['volt'] * l, 'phase': p['phase'] + 90, 'frequency': freq}))
            else:
                exp.append((nm + '_q1', 'quadrupole', {'k1': p['b1'], 'l': p['lq1'] * 1e-3}))
                exp.append((nm + 'cav', 'rfca', {'l': (p['l'] - p['lq1'] - p['lq2']) * 1e-3, 'volt': p['volt'], 'phase': p['phase'] + 90, 'frequency': freq or 1.0}))
                exp.append((nm + '_q2', 'quadrupole', {'k1': p['b2'], 'l': p['lq2'] * 1e-3}))
            if r.random() < .1:
                out.append('; remark\n')
        out.insert(r.randint(0, len(out)), ''.join('; filler line %05d with some text so that the file grows\n' % k for k in range(f['fill'])))
        out.append({'nl': '', 'none': '', 'comment': '; the end\n', 'blank': '\n\n'}[f['end']])
        return ''.join(out), 'top', exp, len(exp)
    qv = round(random.Random(f['s'] + 1).uniform(-5, 5), 3)
    els, exp = [], {}
    for k in range(f['nels']):
        e = {'_id': k + 1, 'name': 'E%d' % k, 'type': r.choice(['DRIF', 'KQUAD', 'CSBEND'])}
        for p in r.sample(['l', 'k1', 'angle', 'e1', 'tilt', 'group', 'var'], r.randint(1, 5)):
            e[p] = r.choice([float(numtxt(r)), 3, 'text', '', float(numtxt(r))]) if p != 'var' else 'qv'
        els.append(e)
        exp[k + 1] = (e['name'], e['type'].lower(), {a: (qv if v == 'qv' else v) for a, v in e.items() if a not in ('name', 'type')})
    lines, flats = [], {}
    for k in range(f['nlines']):
        items, flat = [], []
        for _ in range(r.randint(1, 6)):
            if flats and r.random() < .35:
                j = r.choice(sorted(flats))
                if r.random() < .3:
                    items.append(-j)
                    flat += flats[j][::-1]
                else:
                    items.append(j)
                    flat += flats[j]
            else:
                j = r.randint(1, f['nels'])
                items.append(j)
                flat.append(j)
        lines.append({'id': 1001 + k, 'name': lname(f, k), 'items': items, 'l': 0})
        flats[1001 + k] = flat
    doc = {'models': {'beamlines': lines, 'elements': els, 'rpnCache': {'qv': qv}, 'filler': ['text %d' % k for k in range(f['fill'] * 3)]}}
    if r.random() < .5:
        doc['models'] = dict(sorted(doc['models'].items(), reverse=r.random() < .5))
    top = f['nlines']
    e = [exp[x] for x in flats[1000 + top]]
    return json.dumps(doc, indent=r.choice([None, 1])), lname(f, top - 1), e, len(e)


def load(fmt, p, name):
    if fmt == 'lte':
        from rsbeams.rslattice.lte_parser import BeamlineParser
        return BeamlineParser(p, name)()
    if fmt == 'trace3d':
        from rsbeams.rslattice.trace3d_parser import Trace3d
        return Trace3d(p, name)()
    if fmt == 'tracewin':
        from rsbeams.rslattice.trace3d_parser import TraceWin
        return TraceWin(p, name)()
    from rsbeams.rslattice.templates.lattice_importer import parse_json
    return parse_json(p, name)


def merged(p, name, how):
    from rsbeams.rslattice.trace3d_parser import Trace3d
    t = Trace3d(p, name)
    bl = t()
    for h in how:
        t.handle_bends() if h == 'b' else t.handle_cavities()
    return bl


def merge(els, how):
    """Expected: dipoles know their edges, cavities reach over the drifts beside them"""
    els = [(n, t, dict(p)) for n, t, p in els]
    for h in how:
        for k, (n, t, p) in enumerate(els):
            if t == 'sbend' and h == 'b':
                a, b = els[k - 1][2], els[k + 1][2]
                p.update(e1=a['beta'], e2=b['beta'], hgap=a['g'] / 2, fint=a['k1'])
            elif t == 'rfca' and h == 'c':
                a, b = els[k - 1][2], els[k + 1][2]
                p.update(l=a['l'] + b['l'], phase=90 - p['phase'])
                a['l'] = b['l'] = 0.0
        if h == 'b':
            els = [e for e in els if e[1] != 'edge']
    return els


def snapshot(bl):
    return [(e.name, e.type, dict(e.parameters)) for e in bl.get_beamline_elements()]


def differs(got, want):
    if len(got) != len(want):
        return '%d elements, expected %d' % (len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        if g[0] != w[0] or g[1] != w[1]:
            return 'element %d is %r of type %r, expected %r of type %r' % (k, g[0], g[1], w[0], w[1])
        if set(g[2]) != set(w[2]):
            return 'element %d (%s) has parameters %s, expected %s' % (k, g[0], sorted(g[2]), sorted(w[2]))
        scale = max([abs(v) for v in w[2].values() if not isinstance(v, str)] or [0]) if g[0].endswith('cav') else 0  # lengths by subtraction
        for p, v in w[2].items():
            a = g[2][p]
            if isinstance(v, str) or isinstance(a, str):
                ok = isinstance(v, str) and isinstance(a, str) and a.strip() == v.strip()
            else:
                ok = a == v or abs(a - v) <= 1e-12 * max(abs(v), scale)
            if not ok:
                return 'element %d (%s): %s is %r, expected %r' % (k, g[0], p, a, v)
    return None


def run(case):
    io = core.io()
    texts = []
    base = {}

    ev = []
    for k, f in enumerate(case['files']):
        t = lattice(f)
        if f['end'] == 'none':
            t = (t[0].rstrip('\n'),) + t[1:]
        texts.append(t)
        p = put('lat%d' % k, t[0].encode())
        io.reset()
        st, v = attempt(lambda: load(f['fmt'], p, t[1]), io)
        STAT['runs'] += 1
        if st == 'raise' and f.get('hard'):
            if isinstance(v, MemoryError):
                raise Violation('hang', 'loading a lte lattice (%s) grows without end' % f['hard'], fmt=f['fmt'])
            continue
        if t[3] is None:
            raise Violation('undefined', 'a %s lattice that uses an undefined element is loaded' % f['fmt'], fmt=f['fmt'])
        if st == 'raise':
            raise Violation('load-raises', 'loading a %s lattice on a healthy disk raises %r' % (f['fmt'], v), fmt=f['fmt'])
        got = snapshot(v)
        if len(got) != t[3]:
            raise Violation('incomplete', '%s lattice: %d elements, the file has %d' % (f['fmt'], len(got), t[3]), fmt=f['fmt'])
        if t[2] is not None:
            d = differs(got, t[2])
            if d:
                raise Violation('wrong', '%s lattice: %s' % (f['fmt'], d), fmt=f['fmt'])
        base[k] = (got, io.count['read'])
    for l in case['loads']:
        k = l['file']
        if k not in base:
            continue
        f, t = case['files'][k], texts[k]
        if l['t'] in ('noname', 'dict'):
            if f['fmt'] != 'json' and (l['t'] == 'dict' or f['fmt'] != 'lte'):
                continue
            io.reset()
            STAT['runs'] += 1
            if l['t'] == 'noname':
                st, v = attempt(lambda: load(f['fmt'], path('lat%d' % k), t[1] + '_no'), io)
                if st == 'ok':
                    raise Violation('accepted', 'a %s lattice is loaded although it has no beamline %r' % (f['fmt'], t[1] + '_no'), fmt=f['fmt'])
            else:
                # what the file holds, already read
                doc = json.loads(t[0])
                st, v = attempt(lambda: load(f['fmt'], doc, t[1]), io)
                d = repr(v) if st == 'raise' else differs(snapshot(v), base[k][0])
                if d:
                    raise Violation('dict', 'the contents of a json lattice given as a dictionary: %s' % d, fmt=f['fmt'])
            continue
        if l['t'] == 'merge':
            if f.get('merge'):
                how = ['bc', 'cb', 'b', 'c'][l['s'] % 4]
                st, v = attempt(lambda: merged(path('lat%d' % k), t[1], how), io)
                d = repr(v) if st == 'raise' else differs(snapshot(v), merge(t[2], how))
                if d:
                    raise Violation('merged', 'a Trace3D beamline after merging its %s: %s' % ({'b': 'dipole edges', 'c': 'cavities'}.get(how, 'dipole edges and cavities'), d), fmt=f['fmt'])
            continue
        p = path('lat%d' % k)
        got, nr = base[k]
        plan = []
        if l['t'] == 'eio':
            short = [{'k': 'short', 's': l['s'], 'p': 1.0, 'max': max(l['max'], len(t[0]) // 400)}] if l['max'] else []
            io.reset(short)
            attempt(lambda: load(f['fmt'], p, t[1]), io)
            plan = [{'k': 'eio', 'op': 'read', 'nth': int(l['at'] * io.count['read']), 'sticky': l['sticky']}] + short
        elif l['t'] == 'open':
            plan = [{'k': 'open', 'nth': 0, 'err': l['err']}]
        elif l['t'] == 'short':
            plan = [{'k': 'short', 's': l['s'], 'p': .9, 'max': max(l['max'], len(t[0]) // 400) if l['max'] else 0}, {'k': 'eintr', 's': l['s'], 'p': .2}]
        elif l['t'] == 'missing':
            p = path('no such file')
            fired('missing_file')
        io.reset(plan)
        st, v = attempt(lambda: load(f['fmt'], p, t[1]), io)
        STAT['runs'] += 1
        note_io(io)
        hard = [x for x in io.fired if not x.startswith(('short', 'eintr'))] or l['t'] == 'missing'
        why = '%s lattice loaded under %s' % (f['fmt'], plan or l['t'])
        if st == 'ok':
            if l['t'] == 'missing':
                raise Violation('accepted', '%s: a missing file was loaded' % why, fmt=f['fmt'])
            d = differs(snapshot(v), got)
            if d:
                raise Violation('partial', '%s returned normally: %s' % (why, d), fmt=f['fmt'])
        elif not hard:
            raise Violation('load-raises', '%s raises %r' % (why, v), fmt=f['fmt'])
        else:
            io.reset()
            st2, v2 = attempt(lambda: load(f['fmt'], path('lat%d' % k), t[1]), io)
            d = repr(v2) if st2 == 'raise' else differs(snapshot(v2), got)
            if d:
                raise Violation('retry', 'load after %s: %s' % (why, d), fmt=f['fmt'])
        state(f['fmt'], l['t'], st, sorted(io.fired), min(len(io.log), 30), min(len(got), 5))
        ev.append([l['t'], st, len(io.log)])
    return ev


def shrink(case):
    yield from drop_items(case, ('loads',))
    if len(case['files']) > 1:
        for k in range(len(case['files'])):
            ls = [dict(l, file=0) for l in case['loads'] if l['file'] == k]
            yield {'files': [case['files'][k]], 'loads': ls}
    for i, f in enumerate(case['files']):
        yield from shrink_int(case, ('files', i, 'fill'))
        yield from shrink_int(case, ('files', i, 'nels'), 1)
        yield from shrink_int(case, ('files', i, 'nlines'), 1)
        if f['end'] != 'nl':
            yield set_at(case, ('files', i, 'end'), 'nl')
