"""C24: an elegant lattice converted to Warp is complete and for the momentum of its file, or the conversion raises."""
import json, math, random, sys
from core import *
import core
from props import c01, c21
from props.c20 import Broken

MASS = 510998.95          # eV/c^2
C = 299792458.0
STRENGTH = {'QUAD': ('db', 'k1'), 'KQUAD': ('db', 'k1'), 'SEXT': ('db', 'k2'), 'CSBEND': ('rc', 'angle'), 'RBEN': ('rc', 'angle')}
# known to the writer, not to the conversion: converted as the others or refused
MAYBE = {'SBEN': ('rc', 'angle'), 'KSEXT': ('db', 'k2'), 'NIBEND': ('rc', 'angle'), 'CSRCSBEND': ('rc', 'angle')}
PLAIN = ['DRIF', 'CSRDRIFT', 'EDRIFT', 'LSCDRIFT', 'MARK', 'WATCH', 'RFCA', 'HKICK']


def setup():
    c21.setup()
    from pykern import pkjson

    class Importer:
        """Stands for sirepo's importer (not installed): the file holds its result."""
        def __init__(self, kind):
            if kind != 'elegant':
                raise ValueError(kind)

        def parse_file(self, path):
            with open(path) as f:
                return pkjson.load_any(f)
    sys.modules['sirepo.lib'].Importer = Importer
    import rsbeams.pkcli.lattice


def number(r, zero=True):
    return r.choice([0.0] * zero + [1.0, 2, -3.5, 1e-3, r.uniform(-4, 4), r.uniform(-4, 4), r.uniform(.1, 2)])


def document(d):
    """-> (what sirepo makes of the lattice, {line name: elements in order}, momentum in MeV/c or None)"""
    r = random.Random(d['s'])
    cache = {'qv': round(r.uniform(.5, 3), 3), 'k1 2 *': -1.5 if d['s'] % 3 else 0.75}
    els, byid = [], {}
    for k in range(d['nels']):
        t = r.choice(r.choice([sorted(STRENGTH), sorted(STRENGTH), sorted(MAYBE) if d['maybe'] else PLAIN, PLAIN]))
        e = {'_id': 10 + k, 'name': '%s%d' % (r.choice(['Q', 'D', 'B', 'SX']), k), 'type': t}
        v = {}
        if t not in ('MARK', 'WATCH') or r.random() < .2:
            v['l'] = abs(number(r))
        s = STRENGTH.get(t) or MAYBE.get(t)
        if s:
            v[s[1]] = number(r, s[1] != 'angle')
        if r.random() < .3:
            v['tilt'] = number(r)
        w = {}
        for q, x in v.items():
            how = r.random()
            if how < .12:
                w[q] = r.choice(sorted(cache)) if q != 'l' else 'qv'
                v[q] = cache[w[q]]
            else:
                w[q] = repr(x) if how < .3 else x
        e.update(w)
        els.append(e)
        byid[e['_id']] = (e['name'], t, v)
    lines, flats, names = [], {}, {}
    for k in range(d['nlines']):
        items, flat = [], []
        for _ in range(r.randint(1, 6)):
            if flats and r.random() < .35:
                j = r.choice(sorted(flats))
                rev = r.random() < .3
                items.append(-j if rev else j)
                flat += flats[j][::-1] if rev else flats[j]
            else:
                j = 10 + r.randrange(d['nels'])
                items.append(j)
                flat.append(byid[j])
        # also names that begin with the names of other lines
        ln = ['LN%d' % k, 'LN' + 'X' * (9 - k), 'LN' + '1' * (k + 1)][d['s'] % 3]
        lines.append({'id': 1001 + k, 'name': ln, 'items': items})
        flats[1001 + k] = flat
        names[ln] = flat
    commands = [{'_type': r.choice(['twiss_output', 'run_control', 'track'])} for _ in range(r.randint(0, 2))]
    p = d['p']
    if p is not None:
        commands.insert(r.randint(0, len(commands)), {'_type': 'run_setup', 'p_central_mev': repr(p) if r.random() < .3 else p})
    doc = {'models': {'beamlines': lines, 'elements': els, 'commands': commands, 'rpnCache': cache, 'filler': ['text %d' % k for k in range(d['fill'])]}}
    return doc, names, p


def expected(flat, p):
    brho = p * 1e6 / C
    out = []
    for n, t, v in flat:
        par = {'l': v.get('l') or 0.0}
        s = STRENGTH.get(t) or MAYBE.get(t)
        if s:
            par[s[0]] = -v[s[1]] * brho if s[0] == 'db' else v['l'] / v[s[1]]
        out.append((n, t, par))
    return out


def problem(data, top, want, p):
    if data is None:
        return 'the file does not exist'
    try:
        log, line = c21.execute(data.decode(), top)
    except Exception as e:
        return 'the file does not run: %s: %s' % (type(e).__name__, e)
    if [n for n, _ in line] != [w[0] for w in want]:
        return 'the line is %s, expected %s' % ([n for n, _ in line][:12], [w[0] for w in want][:12])
    if len(log) != len(set(w[0] for w in want)):
        return '%d elements are defined, the line has %d' % (len(log), len(set(w[0] for w in want)))
    g2 = 1 + (p * 1e6 / MASS) ** 2
    tol = 1e-7 + 1e-14 * g2
    for (n, e), (_, t, par) in zip(line, want):
        kind = c21.KINDS.get(t, ('Drft',))[0]
        if e.kind != kind or set(e.kw) != set(par):
            return '%s is %s%s, expected %s%s' % (n, e.kind, e.kw, kind, par)
        for q, x in par.items():
            if not abs(e.kw[q] - x) <= (tol if q == 'db' else 1e-12) * abs(x):
                return '%s of %s (%s) is %r, expected %r at %r MeV/c' % (q, n, t, e.kw[q], x, p)
    return None


def gen(r, i, tier):
    docs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        docs.append({'s': r.randint(0, 10**9), 'nels': r.randint(1, 12), 'nlines': r.randint(1, 4), 'maybe': r.random() < .25, 'fill': r.choice([0, 0, 30, 600]),
                     'p': r.choice([.05, .3, .511, 1.0, 5, 135.0, 3000, 10 ** r.uniform(-1, 4.5), 10 ** r.uniform(-1, 4.5), None if r.random() < .4 else 50.0])})
    ops = []
    for _ in range(r.randint(2, 7)):
        o = {'d': r.randrange(len(docs)), 'line': frac(r), 'f': r.randrange(2), 'case': r.random() < .4}
        k = choose(r, [(5, None), (5, 'fault'), (1, 'stdout'), (1, 'interrupt'), (.5, 'noline'), (.5, 'nofile')])
        o['k'] = k
        if k == 'fault':
            fk = choose(r, [(3, 'eio'), (3, 'enospc'), (2, 'close'), (1.5, 'open'), (1.5, 'short'), (1, 'eintr'), (3, 'readerror')])
            o['fault'] = dict(k=fk, at=frac(r), minus=r.choice([0, 1, 7]), sticky=r.randint(0, 1), err=r.choice(['EACCES', 'EROFS', 'EMFILE']) if fk == 'open' else r.choice(['EIO', 'ENOSPC']),
                              lost=r.choice([0, 5, 10**9]), s=r.randint(0, 10**9), p=.7, max=r.choice([1, 5, 0]))
        if k in ('interrupt', 'stdout'):
            o['at'] = r.randint(0, 400) if k == 'interrupt' else r.randint(0, 3)
        ops.append(o)
    return {'docs': docs, 'ops': ops}


class Late(Broken):
    """A standard output that takes some lines before it fails."""
    def __init__(self, n):
        self.n = n

    def write(self, s):
        self.n -= 1
        if self.n < 0:
            Broken.write(self, s)


def run(case):
    from rsbeams.pkcli import lattice
    io = core.io()
    docs = []
    for k, d in enumerate(case['docs']):
        doc, names, p = document(d)
        text = json.dumps(doc, indent=1 if d['s'] % 2 else None).encode()
        docs.append((put('in%d' % k, text), names, p, text))
    held = {0: None, 1: None}
    ev = []
    for o in case['ops']:
        STAT['runs'] += 1
        src, names, p, text = docs[o['d']]
        k = o['k']
        top = sorted(names)[int(o['line'] * len(names))]
        flat = names[top]
        fn = 'w%d.py' % o['f']
        name = top.lower() if o['case'] else top
        if k == 'noline':
            name += '_NO'
        if k == 'nofile':
            src = path('no such file')
            fired('missing_file')
        may = any(t in MAYBE for _, t, _ in flat)
        # nothing to convert: no momentum, no line, no file
        must = p is None or k in ('noline', 'nofile')
        plan = []
        if k == 'fault':
            f = o['fault']
            io.reset()
            attempt(lambda: lattice.elegant_to_warp(src, path('probe'), name), io)
            if f['k'] == 'readerror':
                plan = [{'k': 'eio', 'op': 'read', 'nth': int(f['at'] * io.count['read']), 'sticky': f['sticky']}]
            else:
                plan = c01.plan_of(f, {'write': io.count['write'], 'bytes': len(get('probe') or b''), 'close': io.count['close'], 'open': io.count['open']})
        out, prev = sys.stdout, core._hook
        left = [o['at'] if k == 'interrupt' else -1]

        def hook(code, line):
            left[0] -= 1
            if left[0] == -1:
                fired('interrupt')
                raise KeyError('injected interruption')
        io.reset(plan)
        if k == 'interrupt':
            core.set_line_hook(hook)
        elif k == 'stdout':
            sys.stdout = Late(o['at'])
        try:
            st, v = attempt(lambda: lattice.elegant_to_warp(src, path(fn), name), io)
        finally:
            sys.stdout = out
            if k == 'interrupt':
                core.set_line_hook(prev)
        note_io(io)
        why = 'converting line %s%s' % (name, ' under %s' % plan if plan else ' with %s' % k if k else '')
        if st == 'ok':
            if must:
                raise Violation('accepted', '%s returns normally although %s' % (why, 'the file has no run_setup' if p is None else 'it does not exist'))
            d = problem(get(fn), top, expected(flat, p), p)
            if d:
                raise Violation('silent-loss' if io.fired else 'incomplete', '%s returned normally: %s' % (why, d))
        elif k is None and not must and not may:
            raise Violation('raises', '%s raises %r' % (why, v))
        elif k == 'fault' and not [x for x in io.fired if not x.startswith(('short', 'eintr'))] and not must and not may:
            raise Violation('raises', '%s raises %r' % (why, v))
        elif must and get(fn) != held[o['f']]:
            raise Violation('touched', '%s is refused but changes the file' % why)
        held[o['f']] = get(fn)
        for j in (0, 1):
            if get('w%d.py' % j) != held[j]:
                raise Violation('other-file', '%s changes file %d' % (why, j))
        for q, x in enumerate(docs):
            if get('in%d' % q) != x[3]:
                raise Violation('input', '%s changes the input' % why)
        state(k, o.get('fault', {}).get('k'), st, sorted(io.fired), len(flat), sorted(set(t for _, t, _ in flat)), p is None)
        ev.append([k, st, dict(io.fired), digest(str(held[o['f']]))])
    return ev


def shrink(case):
    yield from drop_items(case, ('ops',))
    for i, d in enumerate(case['docs']):
        yield from shrink_int(case, ('docs', i, 'nels'), 1)
        yield from shrink_int(case, ('docs', i, 'nlines'), 1)
        if d['fill']:
            yield set_at(case, ('docs', i, 'fill'), 0)
        if d['maybe']:
            yield set_at(case, ('docs', i, 'maybe'), False)
        if d['p'] not in (None, 1.0):
            yield set_at(case, ('docs', i, 'p'), 1.0)
    for i, o in enumerate(case['ops']):
        if o['k'] == 'fault':
            yield set_at(case, ('ops', i), dict({q: x for q, x in o.items() if q != 'fault'}, k=None))
        if o['case']:
            yield set_at(case, ('ops', i, 'case'), False)
