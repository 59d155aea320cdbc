"""C18: random generation is reproducible from the generator state or seed."""
import json, random, time, os
import numpy as np
from core import *
import core

BUNCH = {'std': ['Gaussian', 'KV'], 'non': ['KV', 'waterbag', 'Gaussian']}


def step(r):
    k = choose(r, [(4, 'bunch'), (2, 'distrib'), (1.5, 'beam'), (3, 'sample'), (1.5, 'regen'), (.7, 'user'), (.6, 'fail')])
    o = {'k': k, 's': r.randint(0, 10**9)}
    if k == 'bunch':
        o['c'] = r.choice(['std', 'non'])
        o.update(dist=r.choice(BUNCH[o['c']]), n=4 * choose(r, [(40, r.randint(1, 8)), (1, r.choice([64, 100, 256]) if o['c'] == 'non' else r.choice([256, 1024, 4096, 8200]))]), quiet=r.random() < .3, long=r.random() < .5,
                 seed=choose(r, [(3, None), (1, 0), (3, r.randint(1, 2**31)), (.3, 2**40 + 3), (.3, -7), (.2, 'text'), (.2, 2.5), (.2, 1)]), bx=r.choice([1.0, .5, 12.0]), ax=r.choice([0.0, -1.1]),
                 e=r.choice([1e-6, 4e-6]))
    elif k == 'regen':
        o['long'] = r.random() < .4
    elif k in ('distrib', 'beam'):
        o.update(n=choose(r, [(40, r.randint(20, 45)), (1, r.choice([500, 1030]))]), d=r.choice(['uniform', 'gaussian']), fac=r.choice([3.0, 9.0]))
    elif k == 'sample':
        o.update(n=choose(r, [(20, r.randint(1, 80)), (1, r.choice([1000, 10001, 70000]))]), m=r.choice(['random', 'random', 'halton']), inv=r.choice(['interpolate', 'numeric']), wn=r.choice([None, 60, 300]))
    elif k == 'user':
        o['what'] = r.choice(['np', 'py', 'both'])
    return o


def gen(r, i, tier):
    return {'hist': [[step(r) for _ in range(r.choice([0, 1, 2, 4]))] for _ in range(2)], 'ops': [step(r) for _ in range(r.randint(1, 7))],
            'state': r.randint(0, 10**9), 'seeds': [r.randint(0, 2**60), r.randint(0, 2**60)], 'clock': [r.uniform(0, 2e9), r.uniform(0, 2e9)],
            'between': r.choice(['nothing', 'objects', 'gc'])}


def execute(ops, out, seeded):
    """Run the calls; append every generated array to out."""
    from rsbeams.rsptcls.bunch import StandardBunch, NonlinearBunch
    from rsbeams.rsptcls.RsDistrib6D import RsDistrib6D
    from rsbeams.rsptcls.RsPtclBeam6D import RsPtclBeam6D
    from rsbeams.rsstats.sample import sample
    last = None
    for j, o in enumerate(ops):
        k = o['k']
        if k == 'bunch':
            C = StandardBunch if o['c'] == 'std' else NonlinearBunch
            before = (random.getstate(), np.random.get_state())
            b = C(o['n'], dist=o['dist'], emitx=o['e'], emity=o['e'], betax=o['bx'], betay=o['bx'], alphax=o['ax'], seed=o['seed'])
            if o['seed'] is None:
                after = (random.getstate(), np.random.get_state())
                if before[0] != after[0] or not same_state(before[1], after[1]):
                    raise Violation('disturbed', 'constructing a bunch without a seed changes the state of the generators')
            b.quiet = o['quiet']
            b.set_transverse_coordinates()
            if o['long']:
                b.set_longitudinal_coordinates()
            a = np.array(b.particles)
            out.append(a)
            last = b
            if o['seed'] is not None:
                seeded.append((j, o, a))
        elif k == 'regen':
            if last is not None:
                last.set_transverse_coordinates()
                if o['long']:
                    last.set_longitudinal_coordinates()
                out.append(np.array(last.particles))
        elif k == 'distrib':
            out.append(np.array(RsDistrib6D(o['n'], o['d'], o['fac']).get_phase_space_6d().get_array_6d()))
        elif k == 'beam':
            out.append(np.array(RsPtclBeam6D(o['n'], 1e9, 1e-9, 1e6, o['d'], o['fac'], .5, 2., 1e-6, 0., 1., 1e-6, -1., 3., 1e-5).get_distrib6d().get_phase_space_6d().get_array_6d()))
        elif k == 'sample':
            kw = {'wn': o['wn']} if o['wn'] else {}
            out.append(np.array(sample(o['n'], lambda x: 1 + .5 * np.sin(x), 0, 3, method=o['m'], invert=o['inv'], **kw)))
        elif k == 'user':
            v = []
            if o['what'] != 'py':
                v.append(np.random.random())
            if o['what'] != 'np':
                v.append(random.random())
            out.append(np.array(v))
        elif k == 'fail':
            st, v = attempt(lambda: [lambda: RsDistrib6D(10, 'nothing', 1.0), lambda: StandardBunch(4, dist='KV', emitx=1., emity=2.).set_transverse_coordinates(),
                                     lambda: sample(5, lambda x: 1 / 0, 0, 1)][o['s'] % 3]())
            if st == 'ok':
                raise Violation('accepted', 'a bad request is accepted')


def same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and tuple(a[2:]) == tuple(b[2:])


class Clock:
    """Wall clock, process id and object addresses differ from run to run."""
    def __init__(self, t0, tick):
        self.t, self.tick = t0, tick

    def now(self):
        self.t += self.tick
        return self.t

    def __enter__(self):
        self.saved = [(time, n, getattr(time, n)) for n in ('time', 'time_ns', 'perf_counter', 'perf_counter_ns', 'monotonic', 'monotonic_ns', 'process_time')] + [(os, 'getpid', os.getpid)]
        for m, n, v in self.saved:
            setattr(m, n, (lambda: int(self.now() * 1e9)) if n.endswith('_ns') else (lambda: 1000 + int(self.now()) % 30000) if n == 'getpid' else self.now)
        return self

    def __exit__(self, *a):
        for m, n, v in self.saved:
            setattr(m, n, v)


def run(case):
    runs, states, seeds = [], [], []
    keep = []
    for k in range(2):
        STAT['runs'] += 1
        core.entropy(True, case['seeds'][k])
        fired('entropy_changed')
        fired('clock_jump')
        with Clock(case['clock'][k], 1e-3 * (k + 1)):
            random.seed(case['seeds'][k])
            np.random.seed(case['seeds'][k] % 2**32)
            execute(case['hist'][k], [], [])
            if case['between'] == 'objects':
                keep.append([object() for _ in range(50 * (k + 1))])
            elif case['between'] == 'gc':
                import gc
                gc.collect()
            r = random.Random(case['state'])
            random.setstate(r.getstate())
            np.random.set_state(np.random.RandomState(case['state'] % 2**32).get_state())
            out, sd = [], []
            execute(case['ops'], out, sd)
        runs.append(out)
        seeds.append(sd)
        states.append((random.getstate(), np.random.get_state()))
    a, b = runs
    names = [o['k'] for o in case['ops']]
    if len(a) != len(b):
        raise Violation('differs', 'the two runs generated %d and %d arrays' % (len(a), len(b)))
    for q, (x, y) in enumerate(zip(a, b)):
        if not same_array(x, y):
            raise Violation('differs', 'from the same generator state, array %d of the calls %s differs: %s' % (q, names, first_diff(x, y)))
    if states[0][0] != states[1][0] or not same_state(states[0][1], states[1][1]):
        raise Violation('state', 'the calls %s leave the generators in different states' % names)
    # a bunch with an explicit seed, on its own, in whatever state the generators are
    for j, o, arr in seeds[0]:
        for n, st in enumerate((3, 99)):
            random.seed(st)
            np.random.seed(st)
            core.entropy(True, st)
            out = []
            execute([o], out, [])
            STAT['runs'] += 1
            if not same_array(out[0], arr):
                raise Violation('seed', 'a %s %s bunch constructed with seed %r gives other particles the next time: %s' % (o['c'], o['dist'], o['seed'], first_diff(out[0], arr)))
    state([(o['k'], o.get('c'), o.get('dist'), o.get('m'), o.get('d'), o.get('seed') is None) for o in case['ops']], case['between'])
    return [digest([float(v) for v in x.ravel()]) for x in a]


def shrink(case):
    yield from drop_items(case, ('ops',), ('hist', 0), ('hist', 1))
    for i, o in enumerate(case['ops']):
        if 'n' in o:
            if o['k'] == 'bunch' and o['n'] > 4:
                yield set_at(case, ('ops', i, 'n'), 4)
            elif o['k'] == 'sample':
                yield from shrink_int(case, ('ops', i, 'n'), 1)
        if o.get('quiet'):
            yield set_at(case, ('ops', i, 'quiet'), False)
        if o.get('long'):
            yield set_at(case, ('ops', i, 'long'), False)
    if case['between'] != 'nothing':
        yield set_at(case, ('between',), 'nothing')
