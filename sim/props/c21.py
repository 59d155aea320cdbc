"""C21: a Warp export contains the whole beamline every time, or raises."""
import json, sys, types
from core import *
import core, lat
from props import c01

KINDS = {'DRIF': ('Drft', ['l']), 'CSRDRIFT': ('Drft', ['l']), 'EDRIFT': ('Drft', ['l']), 'LSCDRIFT': ('Drft', ['l']), 'CSBEND': ('Bend', ['l', 'rc']), 'SBEN': ('Bend', ['l', 'rc']),
         'NIBEND': ('Bend', ['l', 'rc']), 'RBEN': ('Bend', ['l', 'rc']), 'QUAD': ('Quad', ['l', 'db']), 'KQUAD': ('Quad', ['l', 'db']), 'SEXT': ('Sext', ['l', 'db']), 'KSEXT': ('Sext', ['l', 'db']),
         'CSRCSBEND': ('Bend', ['l', 'rc']), 'KSBEND': ('Bend', ['l', 'rc']), 'TUBEND': ('Bend', ['l', 'rc'])}
OTHER = ['MARKER', 'rfca', 'Watch', 'KICKER']
NAMES = ['Q1', 'qf', 'D1', 'B2', 'm3', 'W1', 'K4', 's5', 'QUADRUPOLE_WITH_A_LONG_NAME_01', 'x', 'AQ1', 'Q11', 'D', 'xD1', 'LD', 'E']


def field_map(fm):
    """What sirepo's _build_field_map makes of a field map (the package is not installed)."""
    res = {}
    for sim, groups in fm.items():
        res[sim] = {'from_madx': {}, 'to_madx': {}}
        for g in groups:
            res[sim]['from_madx'][g[0]] = g[1]
            for f in g[1:]:
                res[sim]['to_madx'][f[0]] = [g[0]] + f[1:]
    return res


def setup():
    m = types.ModuleType('sirepo.template.madx_converter')
    m._build_field_map = field_map
    for n in ('sirepo', 'sirepo.template', 'sirepo.lib'):
        sys.modules[n] = types.ModuleType(n)
    sys.modules['sirepo.template.madx_converter'] = m
    sys.modules['sirepo'].template, sys.modules['sirepo'].lib = sys.modules['sirepo.template'], sys.modules['sirepo.lib']
    sys.modules['sirepo.template'].madx_converter = m
    import rsbeams.rslattice.formatted_writer


def element(r, known):
    n = r.choice(NAMES)
    if n in known:
        return known[n]
    known[n] = new_element(r, n)
    return known[n]


def new_element(r, n):
    t = r.choice(sorted(KINDS)) if r.random() < .8 else r.choice(OTHER)
    p = {}
    for k in (KINDS.get(t.upper()) or ('', []))[1]:
        p[k] = r.choice([0.0, 0, 1.5, -3, 1e-9, 1 / 3, r.uniform(-5, 5), 1e22])
    if t in OTHER and r.random() < .6:
        p['l'] = r.choice([0.0, 0, 2.5, 1 / 7])
    if r.random() < .3:
        p['tilt'] = .5
    return ['e', n, t.lower() if r.random() < .3 else t, [[k.upper() if r.random() < .3 else k, v] for k, v in p.items()]]


def tree(r, known, depth=0):
    out = []
    for _ in range(r.randint(1, 5)):
        if depth < 2 and r.random() < .2:
            out.append(['l', r.choice(['A', 'B', 'cell']), tree(r, known, depth + 1)])
        else:
            out.append(element(r, known))
    return out


def gen(r, i, tier):
    known = {}
    t = tree(r, known)
    ops = []
    for _ in range(r.randint(3, 9)):
        k = choose(r, [(8, 'write'), (1.5, 'add'), (1, 'change'), (1, 'lack'), (.7, 'new'), (1, 'interrupt')])
        o = {'k': k, 'w': r.randrange(2), 'f': r.randrange(2), 'at': frac(r), 'line': r.randint(0, 60)}
        if k == 'write' and r.random() < .55:
            fk = choose(r, [(3, 'eio'), (3, 'enospc'), (2, 'close'), (1.5, 'open'), (1.5, 'short'), (1, 'eintr')])
            o['fault'] = dict(k=fk, at=frac(r), minus=r.choice([0, 1, 7]), sticky=r.randint(0, 1), err=r.choice(['EACCES', 'EROFS', 'EMFILE']) if fk == 'open' else r.choice(['EIO', 'ENOSPC']),
                              lost=r.choice([0, 5, 10**9]), s=r.randint(0, 10**9), p=.7, max=r.choice([1, 5, 0]))
        if k == 'add':
            o['e'] = element(r, known)
        if k == 'change':
            o['v'] = r.choice([.25, 7, 1e-3])
        ops.append(o)
    return {'tree': t, 'top': r.choice(['LINE1', 'ring', 'L']), 'fill': r.choice([0, 0, 0, 150, 600]), 'ops': ops}


class Elem:
    def __init__(self, log, kind, kw):
        self.kind, self.kw = kind, kw
        log.append(self)

    def __add__(self, o):
        return Line([self]) + o


class Line:
    def __init__(self, items):
        self.items = items

    def __add__(self, o):
        return Line(self.items + (o.items if isinstance(o, Line) else [o]))


def execute(text, top):
    """Run the exported file with a stand-in for Warp -> (definitions in order, elements of the line)"""
    log = []
    wp = types.ModuleType('warp')
    for n in ('Drft', 'Bend', 'Quad', 'Sext'):
        setattr(wp, n, lambda _n=n, **kw: Elem(log, _n, kw))
    old = sys.modules.get('warp')
    sys.modules['warp'] = wp
    try:
        ns = {}
        exec(compile(text, 'export', 'exec'), ns)
    finally:
        if old is None:
            del sys.modules['warp']
        else:
            sys.modules['warp'] = old
    line = ns[top]
    names = {id(v): k for k, v in ns.items() if isinstance(v, Elem) and k != top}
    return log, [(names[id(e)], e) for e in (line.items if isinstance(line, Line) else [line])]


def problem(data, top, want):
    """None or what is wrong with an exported file; want = flat list of (name, type, parameters)"""
    if data is None:
        return 'the file does not exist'
    try:
        log, line = execute(data.decode(), top)
    except Exception as e:
        return 'the file does not run: %s: %s' % (type(e).__name__, e)
    if [n for n, _ in line] != [w[0].upper() for w in want]:
        return 'the line is %s, expected %s' % ([n for n, _ in line][:12], [w[0].upper() for w in want][:12])
    if len(log) != len(set(w[0] for w in want)):
        return '%d elements are defined, the beamline has %d' % (len(log), len(set(w[0] for w in want)))
    for (n, e), (_, t, p) in zip(line, want):
        kind, keys = KINDS.get(t.upper(), (None, None))
        exp = {k: p[k] for k in keys} if kind else {'l': p.get('l') or 0.0}
        if e.kind != (kind or 'Drft') or set(e.kw) != set(exp) or any(not e.kw[k] == exp[k] for k in exp):
            return '%s is %s%s, expected %s%s' % (n, e.kind, e.kw, kind or 'Drft', exp)
    return None


def run(case):
    from rsbeams.rslattice.formatted_writer import WarpWriter
    from rsbeams.rslattice.Beamline import StructuredBeamline
    io = core.io()
    bl = StructuredBeamline(case['top'])
    full = case['tree'] + [['e', 'fill%d' % k, 'DRIF', [['l', k / 7]]] for k in range(case['fill'])]
    lat.build(bl, full)
    model = lat.model_of(full)
    writers = [WarpWriter(bl, 'elegant'), WarpWriter(bl, 'elegant')]
    held = {0: None, 1: None}
    ev = []

    def flat():
        return list(lat.flat(model))

    for o in case['ops']:
        STAT['runs'] += 1
        k = o['k']
        fn = 'w%d.py' % o['f']
        if k == 'new':
            writers[o['w']] = WarpWriter(bl, 'elegant')
        elif k == 'add':
            e = o['e']
            if not any(w[0] == e[1] for w in flat()):
                bl.add_element(e[1], e[2], {a: v for a, v in e[3]})
                model.append((e[1], e[2].lower().strip(), {a.lower(): v for a, v in e[3]}))
        elif k in ('change', 'lack'):
            els = list(bl.get_beamline_elements())
            at = int(o['at'] * len(els))
            w = flat()[at]
            group = list({id(g): (g, x) for g, x in zip(els, flat()) if x[0] == w[0]}.values())
            if k == 'change':
                for g, x in group:
                    g.parameters['L'] = o['v']
                    x[2]['l'] = o['v']
            elif w[1].upper() in KINDS:
                q = KINDS[w[1].upper()][1][-1]
                for g, x in group:
                    dict.__delitem__(g.parameters, q)
                refuse(writers[o['w']], fn, held[o['f']], o)
                for g, x in group:
                    g.parameters[q] = x[2][q]
        elif k == 'interrupt':
            prev = core._hook
            left = [o['line']]

            def hook(code, line):
                left[0] -= 1
                if left[0] == -1:
                    fired('interrupt')
                    raise KeyboardInterrupt('injected')
            core.set_line_hook(hook)
            try:
                writers[o['w']].write_file(path(fn))
            except KeyboardInterrupt:
                pass
            finally:
                core.set_line_hook(prev)
            held[o['f']] = get(fn)
        else:
            wr = writers[o['w']]
            f = o.get('fault')
            plan = []
            if f:
                io.reset()
                probe_ = WarpWriter(bl, 'elegant')
                attempt(lambda: probe_.write_file(path('probe')), io)
                plan = c01.plan_of(f, {'write': io.count['write'], 'bytes': len(get('probe') or b''), 'close': io.count['close'], 'open': io.count['open']})
            io.reset(plan)
            st, v = attempt(lambda: wr.write_file(path(fn)), io)
            note_io(io)
            why = 'an export to %s (history %s)%s' % (fn, [x['k'] for x in case['ops'][:case['ops'].index(o)]], ' under %s' % plan if plan else '')
            if st == 'ok':
                d = problem(get(fn), case['top'], flat())
                if d:
                    raise Violation('silent-loss' if io.fired else 'incomplete', '%s returned normally: %s' % (why, d))
                if isinstance(v, str) and problem(v.encode(), case['top'], flat()):
                    raise Violation('returned', '%s returns text that is not the export' % why)
            elif not [x for x in io.fired if not x.startswith(('short', 'eintr'))]:
                raise Violation('raises', '%s raises %r' % (why, v))
            held[o['f']] = get(fn)
            state(k, f and f['k'], st, sorted(io.fired), len(flat()), len(set(w[0] for w in flat())), len(io.log))
        d = lat.diff(bl, model)
        if d:
            raise Violation('altered', '%s alters the beamline: %s' % (k, d))
        for j in (0, 1):
            if get('w%d.py' % j) != held[j]:
                raise Violation('other-file', '%s to file %d changes file %d' % (k, o['f'], j))
        ev.append([k, digest([str(x) for x in flat()]), dict(io.fired)])
    return ev


def refuse(wr, fn, held, o):
    io = core.io()
    io.reset()
    st, v = attempt(lambda: wr.write_file(path(fn)), io)
    fired('refused_export')
    if st == 'ok':
        raise Violation('accepted', 'exporting an element that lacks a parameter returns normally')
    if get(fn) != held:
        raise Violation('touched', 'a refused export changes the file')


def shrink(case):
    yield from drop_items(case, ('ops',))
    if case['fill']:
        yield set_at(case, ('fill',), 0)
    for i, o in enumerate(case['ops']):
        if 'fault' in o:
            c = json.loads(json.dumps(case))
            del c['ops'][i]['fault']
            yield c
        for q in ('w', 'f'):
            if o[q]:
                yield set_at(case, ('ops', i, q), 0)
    for t in lat.shrink_tree(case['tree']):
        if t:
            yield set_at(case, ('tree',), t)
