"""C19: independent objects do not influence each other under any interleaving."""
import hashlib, json, os, random
import numpy as np
from core import *
import core, sddsref, wspec, beams, lat, pools, threads
from props import c12, c16, c17, c20, c18, c21, c22

KINDS = [(5, 'sdds_read'), (4, 'sdds_write'), (4, 'switchyard'), (4, 'beamline'), (4, 'lattice'), (3, 'phase'), (2, 'stats'), (2, 'kinematic'), (2, 'decoherence'),
         (2, 'halton'), (3, 'random'), (1, 'species'), (1.5, 'insert'), (2, 'warp')]
RANDOM = ('random', 'stats')


def setup():
    import h5py, pandas, ruamel.yaml
    import rsbeams.rsdata.SDDS, rsbeams.rsdata.switchyard, rsbeams.rslattice.Beamline, rsbeams.rslattice.lte_parser, rsbeams.rslattice.trace3d_parser
    import rsbeams.rslattice.templates.lattice_importer, rsbeams.rsptcls.RsPtclBeam6D, rsbeams.rsptcls.bunch, rsbeams.rsptcls.RsPhaseSpace6D
    import rsbeams.rsptcls.species
    import rsbeams.rsstats.kinematic, rsbeams.rsstats.sample, rsbeams.rsstats.stats6d, rsbeams.rsphysics.decoherence, rsbeams.rsptcls.phases
    c21.setup()
    c22.setup()
    import scipy.stats, scipy.optimize, scipy.interpolate
    pools.install()


def gen_task(r, norandom, kinds=KINDS):
    k = choose(r, kinds)
    while norandom and k in RANDOM:
        k = choose(r, kinds)
    t = {'k': k, 's': r.randint(0, 10**9)}
    if k == 'sdds_read':
        t.update(spec=sddsref.gen_spec(r, big=False, maxpages=3), buf=r.random() < .5, cut=r.choice([None, None, None, frac(r, 4)]), meta=1)
    elif k == 'sdds_write':
        t.update(spec=wspec.gen(r, big=False, maxcols=4), modes=[r.choice(['ascii', 'binary', 'ascii', 'binary', 'text']) for _ in range(r.randint(1, 3))], back=r.random() < .5)
    elif k == 'switchyard':
        t.update(n=r.randint(1, 12), mode=r.choice(['ascii', 'binary']), names=[r.choice([None, 'a', 'b', 'electrons']) for _ in range(r.randint(1, 3))],
                 fmts=[r.choice(['elegant', 'opal', 'genesis']) for _ in range(r.randint(1, 3))], opal=r.random() < .4)
    elif k == 'beamline':
        t.update(tree=lat.gen_tree(r, 1), edits=[[r.random(), r.choice(lat.PARS), lat.value(r)] for _ in range(r.randint(0, 3))], save=r.random() < .7)
    elif k == 'lattice':
        t.update(f={'fmt': r.choice(c12.FMTS), 's': r.randint(0, 10**9), 'nels': r.randint(1, 8), 'nlines': r.randint(1, 4), 'fill': r.choice([0, 0, 5]), 'end': 'nl'}, twice=r.random() < .2,
                 bad=r.random() < .15)
    elif k in ('phase', 'stats', 'random', 'species'):
        t.update(n=r.randint(2, 12))
    elif k == 'insert':
        t.update(args=[c22.setting(r, q)[1] for q in ('length', 'phase', 't', 'c')] + [r.randint(1, 12)], sets=[c22.setting(r) for _ in range(r.randint(0, 3))])
    elif k == 'warp':
        t.update(tree=c21.tree(r, {}), times=r.randint(1, 2))
    elif k == 'kinematic':
        t.update(c=dict(c20.config(r), cli=False), calls=r.randint(1, 4))
    elif k == 'decoherence':
        t.update(N=r.randint(1, 9), p=r.randint(1, 4), mu=[[.01], [.02, .03], [-.003], [.01, .02, .003]][r.randrange(4)], nu=frac(r, 3))
    elif k == 'halton':
        t.update(n=r.randint(1, 40), d=c17.dens(r), ab=c17.interval(r), wn=r.randint(20, 300))
    return t


def gen(r, i, tier):
    tasks = []
    same = r.random() < .35
    first = choose(r, KINDS)
    for _ in range(choose(r, [(5, 2), (3, 3), (1.5, 4)])):
        t = gen_task(r, any(t['k'] in RANDOM for t in tasks), [(1, first)] if same and first not in RANDOM else KINDS)
        tasks.append(t)
    runs = []
    for _ in range(r.randint(2, 4)):
        k = choose(r, [(4, 'p'), (4, 'at'), (1, 'seq')])
        o = {'s': r.randint(0, 10**9)}
        if k == 'p':
            o['p'] = r.choice([.5, .1, .03, .005])
        elif k == 'at':
            o['at'] = [frac(r, 6) for _ in range(r.choice([1, 1, 2, 3, 6]))]
        if r.random() < .25:
            o['strike'] = [r.randrange(len(tasks)), frac(r, 6)]
        runs.append(o)
    return {'tasks': tasks, 'runs': runs}


def h(b):
    return None if b is None else [len(b), hashlib.sha256(b).hexdigest()[:16]]


def rd(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def arr(a):
    a = np.asarray(a)
    return [list(a.shape), str(a.dtype), hashlib.sha256(repr(a.tolist()).encode()).hexdigest()[:16]]


class Log(list):
    def do(self, name, fn, d):
        """One call into the library: its value or its exception becomes part of the result."""
        try:
            v = fn()
        except (core.SimKill, threads.Injected):
            raise
        except Exception as e:
            self.append([name, 'raise', type(e).__name__, str(e).replace(d, '<dir>')[:300]])
            return None
        self.append([name, 'ok'])
        return v


def prepare(t, d):
    """Input files of a task, written by the harness before any task starts."""
    os.makedirs(d)
    k = t['k']

    def w(n, b):
        with open(os.path.join(d, n), 'wb') as f:
            f.write(b)
    if k == 'sdds_read':
        b = sddsref.encode(t['spec'])
        b = b[0] if isinstance(b, tuple) else b
        w('f.sdds', b if t['cut'] is None else b[:int(t['cut'] * len(b))])
    elif k == 'switchyard':
        w('in.sdds', beams.elegant_bytes({'n': t['n'], 's': t['s'], 'kind': 'beam', 'mode': t['mode'], 'charge': (t['s'] % 977) * 1e-12, 'extra': 0, 'order': t['s'] % 5}))
        if t['opal']:
            beams.opal_write(os.path.join(d, 'in.h5'), {'steps': [[0, t['n'], t['s']], [3, t['n'] + 1, t['s'] + 1]], 'kind': 'beam', 'charge_attr': 'CHARGE', 'charge': (t['s'] % 31 + 1) * 1e-12, 'attach': 0})
    elif k == 'lattice':
        tx = c12.lattice(t['f'])[0]
        w('lat', (tx[:len(tx) // 2] if t['bad'] else tx).encode())


def task(t, d):
    """-> callable running the task in directory d and returning a JSON value"""
    k = t['k']
    f = lambda n: os.path.join(d, n)
    L = Log()

    def sdds_read():
        from rsbeams.rsdata.SDDS import readSDDS
        r = L.do('open', lambda: readSDDS(f('f.sdds'), buffer=t['buf']), d)
        if r is None:
            return
        L.append(repr(L.do('meta', lambda: sddsref.read_meta(r, t['spec']), d)))
        if L.do('read', lambda: r.read() or 1, d):
            v = L.do('data', lambda: sddsref.collect(r, t['spec']), d)
            L.append(repr(v)[:100000] if v is None else digest(repr({q: [{n: np.asarray(x).tolist() for n, x in pg.items()} for pg in (v[q] or [])] for q in ('params', 'cols')})))

    def sdds_write():
        from rsbeams.rsdata.SDDS import readSDDS
        w = L.do('create', lambda: wspec.build(t['spec']), d)
        for q, m in enumerate(t['modes']):
            L.do('save', lambda: w.save_sdds(f('f.sdds'), m), d)
            L.append(h(rd(f('f.sdds'))))
            if t['back'] and m != 'text':
                def back():
                    r = readSDDS(f('f.sdds'))
                    r.read()
                    return [arr(r.columns[n]) if r.columns is not None else None for n in [c['name'] for c in t['spec']['cols']]]
                L.append(L.do('back', back, d))

    def switchyard():
        from rsbeams.rsdata.switchyard import Switchyard
        s = Switchyard()
        for nm in t['names']:
            L.do('read', lambda: s.read(f('in.sdds'), 'elegant', nm) if nm else s.read(f('in.sdds'), 'elegant'), d)
            if t['opal']:
                L.do('opal', lambda: s.read(f('in.h5'), 'opal', (nm or '') + 'o'), d)
        L.append([[n, arr(v.coordinates), repr(v.total_charge), v.macroparticle_count] for n, v in s.species.items()])
        for fm in t['fmts']:
            L.do('write', lambda: s.write(f('out.dat'), fm), d)
            L.append(h(rd(f('out.dat'))))
            for nm in list(s.species)[:2]:
                L.do('write', lambda: s.write(f('out.' + fm), fm, nm), d)
                L.append(h(rd(f('out.' + fm))))
        L.append([[n, arr(v.coordinates)] for n, v in s.species.items()])

    def species():
        from rsbeams.rsptcls.species import Species
        c = beams.coords(t['n'], t['s'])
        for q in range(3):
            sp = L.do('species', lambda: Species(c * (q + 1), 1.0, 1.0, 1e-9 * q), d)
            if sp is not None:
                L.append([arr(sp.coordinates), repr(sp.total_charge), arr(sp.x), arr(sp.pt)])

    def beamline():
        from rsbeams.rslattice.Beamline import StructuredBeamline
        bl = StructuredBeamline('line')
        L.do('build', lambda: lat.build(bl, t['tree']), d)
        L.append(repr(L.do('length', lambda: bl.length, d)))

        def snap(b):
            return [[e.name, e.type, repr(sorted(e.parameters.items(), key=str)), repr(e.edge)] for e in b.get_beamline_elements()]
        L.append(L.do('elements', lambda: snap(bl), d))
        for at, p, v in t['edits']:
            seq = [e for e in bl.sequence if not hasattr(e, 'sequence')]
            if seq:
                e = seq[int(at * len(seq))]
                L.do('edit', lambda: bl.edit_element(e.name, p, v, warnings=False), d)
        L.append(repr(L.do('length', lambda: bl.length, d)))
        if t['save']:
            L.do('save', lambda: bl.save_beamline(f('line.yaml')), d)
            L.append(h(rd(f('line.yaml'))))
            b2 = StructuredBeamline('line')
            L.do('load', lambda: b2.load_beamline(f('line.yaml'), 'elegant'), d)
            L.append(L.do('elements', lambda: snap(b2), d))

    def lattice():
        for q in range(1 + t['twice']):
            b = L.do('load', lambda: c12.load(t['f']['fmt'], f('lat'), c12.lattice(t['f'])[1]), d)
            if b is not None:
                L.append(repr(L.do('elements', lambda: c12.snapshot(b), d)))
                L.append(repr(L.do('length', lambda: b.length, d)))

    def phase():
        from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
        from rsbeams.rsstats import stats6d as S
        p = RsPhaseSpace6D(t['n'])
        a = np.ascontiguousarray(beams.coords(t['n'], t['s'], 'beam').T)
        L.do('set', lambda: p.set_array_6d(a), d)
        for q in range(2):
            L.append([c16.bits(L.do(n, lambda: g(a), d)) for n, g in (('avg', S.calc_avg6d), ('var', S.calc_variance6d), ('rms', S.calc_rms6d), ('min', S.calc_min6d),
                                                                    ('max', S.calc_max6d), ('corr', S.calc_correlations6d))])
            L.do('write', lambda: p.write_array(f('ps')), d)
            o = RsPhaseSpace6D(2)
            L.do('read', lambda: o.read_array(f('ps.npy') if os.path.exists(f('ps.npy')) else f('ps')), d)
            L.append([arr(o.get_array_6d()), o.get_num_ptcls()])
            L.append(c16.bits(L.do('eigen', lambda: S.jacobi_eigen_solver6d(np.cov(a)), d)))
            if q == 1:
                L.do('decorrelate', lambda: S.rm_correlations6d(a), d)
                L.append(arr(a))
            if q == 0:
                L.do('sub', lambda: S.sub_avg6d(a), d)
                L.do('norm', lambda: S.normalize_rms6d(a), d)
                L.append(arr(a))

    def insert():
        from rsbeams.rslattice.nonlinear import NonlinearInsert
        ob = L.do('make', lambda: NonlinearInsert(*t['args'][:2], t=t['args'][2], c=t['args'][3], num_slices=t['args'][4]), d)
        if ob is None:
            return
        for q in [None] + t['sets']:
            if q is not None:
                L.do('set', lambda: setattr(ob, *q), d)
            L.do('generate', lambda: ob.generate_sequence(), d)
            L.append([arr(getattr(ob, n)) for n in ('s_vals', 'betas', 'cnll', 'knll', 'beta0') if hasattr(ob, n)])
            L.append(repr(L.do('madx', lambda: ob.create_madx(), d))[:20000])

    def warp():
        from rsbeams.rslattice.formatted_writer import WarpWriter
        from rsbeams.rslattice.Beamline import StructuredBeamline
        bl = StructuredBeamline('LINE1')

        def fill(b, tree):
            for e in tree:
                if e[0] == 'e':
                    b.add_element(e[1], e[2], dict(e[3]))
                else:
                    b.add_beamline('%s_%d' % (e[1], len(b.sequence)))
                    fill(b.sequence[-1], e[2])
        L.do('build', lambda: fill(bl, t['tree']), d)
        for q in range(t['times']):
            L.do('write', lambda: WarpWriter(bl, 'elegant').write_file(f('out%d.py' % q)), d)
            L.append(h(rd(f('out%d.py' % q))))

    def stats():
        from rsbeams.rsptcls.RsPtclBeam6D import RsPtclBeam6D
        b = L.do('beam', lambda: RsPtclBeam6D(20 + t['n'], 1e9, 1e-9, 938.272e6, 'uniform', 3.0, .3, 2.0, 1e-6, -1.1, .5, 1e-5, 0.0, 1.0, 1e-3), d)
        if b is not None:
            L.append(arr(b.get_distrib6d().get_phase_space_6d().get_array_6d()))
            tw = {}
            L.do('twiss', lambda: b.get_distrib6d().calc_twiss6d(tw), d)
            L.append(c16.bits(tw))
            L.append(c16.bits(L.do('peak', b.get_peak_current_rms, d)))

    def kinematic():
        from rsbeams.rsstats import kinematic as K
        cv = L.do('make', lambda: c20.make(K, t['c']), d)
        if cv is not None:
            for _ in range(t['calls']):
                v = L.do('call', lambda: cv(silent=True), d)
                L.append(None if v is None else c20.plain(v))

    def decoherence():
        from rsbeams.rsphysics.decoherence import CentroidPosition
        pools.CURRENT[0] = pools.Sim(t['s'])
        c = CentroidPosition(t['N'], 1.0, t['nu'], list(t['mu']))
        for _ in range(2):
            L.append(repr(L.do('turns', lambda: [float(x) for x in c.calculate_centroids(t['p'])], d)))
        L.append([c.N, c.Z, c.nu0, list(c.mu)])

    def halton():
        from rsbeams.rsstats.sample import sample
        a, b = t['ab']
        g, args = c17.density(t['d'], a, b)
        kw = {} if args is None else {'args': args}
        for _ in range(2):
            v = L.do('sample', lambda: sample(t['n'], g, a, b, method='halton', wn=t['wn'], **kw), d)
            L.append(None if v is None else arr(v))

    def random_():
        import random as _r
        np.random.seed(t['s'] % 2**32)
        _r.seed(t['s'])
        out, sd = [], []
        r = random.Random(t['s'])
        ops = []
        while len(ops) < 2:
            o = c18.step(r)
            if o['k'] in ('bunch', 'distrib', 'sample') and not (o.get('seed') is not None):
                o['n'] = min(o['n'], 24)
                ops.append(o)
        c18.execute(ops, out, sd)
        L.append([arr(a) for a in out])
    fn = {'sdds_read': sdds_read, 'sdds_write': sdds_write, 'switchyard': switchyard, 'species': species, 'beamline': beamline, 'lattice': lattice, 'phase': phase, 'stats': stats, 'insert': insert, 'warp': warp,
          'kinematic': kinematic, 'decoherence': decoherence, 'halton': halton, 'random': random_}[k]

    def go():
        fn()
        return list(L)
    return go


def normal(out, d):
    st, v = out
    if st == 'raise':
        return ['raise', type(v).__name__, str(v).replace(d, '<dir>')[:300]]
    return [st, json.loads(json.dumps(v))]


def execute(tasks, dirs, policy, inject=None):
    """Run the tasks (in this process) -> (outcomes, lines of each)"""
    b = threads.Baton([task(t, d) for t, d in zip(tasks, dirs)], policy, inject)
    out = b.run()
    return [normal(o, d) for o, d in zip(out, dirs)], b.lines, b.switches, b.recovered, digest(b.trace)


def run(case):
    tasks = case['tasks']
    solo, lines = [], []
    for k, t in enumerate(tasks):
        d = path('solo%d' % k)
        prepare(t, d)
        o, ln, _, rec, _ = isolated(lambda: execute([t], [d], {'s': 0}))
        if o[0][0] == 'raise':
            probe('task_broken')
        solo.append(o[0])
        lines.append(ln[0])
        probe('task_' + t['k'])
        if o[0][0] == 'ok' and any(isinstance(x, list) and len(x) > 1 and x[1] == 'raise' for x in o[0][1]):
            probe('task_with_exception')
    ev = [digest(solo)]
    for q, rn in enumerate(case['runs']):
        STAT['runs'] += 1
        dirs = []
        for k, t in enumerate(tasks):
            d = path('run%d_%d' % (q, k))
            prepare(t, d)
            dirs.append(d)
        pol = {'s': rn['s'], 'p': rn.get('p', 0.0), 'at': [int(x * sum(lines)) for x in rn.get('at', ())]}
        inj, struck = {}, None
        if rn.get('strike') and rn['strike'][0] < len(tasks):
            struck = rn['strike'][0]
            inj = {struck: int(rn['strike'][1] * lines[struck])}
        out, ln, sw, rec, tr = isolated(lambda: execute(tasks, dirs, pol, inj))
        for k, t in enumerate(tasks):
            if k == struck:
                continue
            if out[k] != solo[k]:
                raise Violation('influence', 'task %d (%s) beside %s under schedule %s%s: %s' % (
                    k, t['k'], [x['k'] for j, x in enumerate(tasks) if j != k], pol, '' if struck is None else ' with task %d failing at line %d' % (struck, inj[struck]), first(out[k], solo[k])))
        if rec:
            probe('lock_recovered', rec)
        state(sorted(t['k'] for t in tasks), tr)
        ev.append([sw, tr])
    return ev


def first(a, b, at=''):
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first(x, y, at + '[%d]' % i)
        return '%s has %d entries, alone %d: %s' % (at, len(a), len(b), (a[len(b):] or b[len(a):])[:2])
    return 'result%s is %s, alone it is %s' % (at, repr(a)[:200], repr(b)[:200])


def shrink(case):
    yield from drop_items(case, ('runs',))
    if len(case['tasks']) > 2:
        for k in range(len(case['tasks'])):
            c = json.loads(json.dumps(case))
            del c['tasks'][k]
            for r in c['runs']:
                if 'strike' in r:
                    del r['strike']
            yield c
    for i, r in enumerate(case['runs']):
        if 'strike' in r:
            c = json.loads(json.dumps(case))
            del c['runs'][i]['strike']
            yield c
        if r.get('p'):
            c = json.loads(json.dumps(case))
            del c['runs'][i]['p']
            c['runs'][i]['at'] = [.5]
            yield c
        if r.get('at'):
            yield from drop_items(case, ('runs', i, 'at'))
    for i, t in enumerate(case['tasks']):
        if t['k'] == 'sdds_read' and 'spec' in t:
            if t['cut'] is not None:
                yield set_at(case, ('tasks', i, 'cut'), None)
            for c in sddsref.shrink_spec({'spec': t['spec']}):
                yield set_at(case, ('tasks', i, 'spec'), c['spec'])
        elif t['k'] == 'sdds_write':
            for c in wspec.shrink({'spec': t['spec']}, 'spec'):
                yield set_at(case, ('tasks', i, 'spec'), c['spec'])
            yield from drop_items(case, ('tasks', i, 'modes'))
        elif t['k'] == 'beamline':
            yield from drop_items(case, ('tasks', i, 'edits'))
            for tr in lat.shrink_tree(t['tree']):
                yield set_at(case, ('tasks', i, 'tree'), tr)
        elif t['k'] == 'switchyard':
            yield from drop_items(case, ('tasks', i, 'names'), ('tasks', i, 'fmts'))
            yield from shrink_int(case, ('tasks', i, 'n'), 1)
