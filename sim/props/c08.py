"""C08: particle exports are complete and exact, or raise."""
import json
import numpy as np
from core import *
import core, beams
from props.c01 import gen_faults, expand

CH = ['float', 'zero_d', 'one_d', 'int0', 'npfloat']


def setup():
    import h5py, pandas


def charge_of(kind, s):
    v = float(np.random.RandomState(s % 2**32).standard_normal() * 1e-9)
    return {'float': v, 'zero_d': np.array(v), 'one_d': np.array([v]), 'int0': 0, 'npfloat': np.float64(v)}[kind]


def gen(r, i, tier):
    return {'n': choose(r, [(.5, 0), (1, 1), (5, r.randint(2, 40)), (3, r.randint(41, 300)), (.6, r.randint(301, 2500)), (.15, r.randint(2501, 25000)), (.1, r.choice([4096, 8192, 10000, 16384, 65536]) + r.choice([-1, 0, 1]))]), 's': r.randint(0, 10**6),
            'kind': r.choice(['mix', 'wide', 'beam', 'const', 'ramp']), 'charge': r.choice(CH), 'order': r.choice(['C', 'F', 'ro']),
            'fmt': r.choice(['elegant', 'opal', 'genesis', 'genesis']), 'version': r.choice([None, None, '0.1', '1.0']),
            'old': r.choice([None, 0, 100, 300000]), 'pathlike': int(r.random() < .2), 'faults': gen_faults(r, tier)}


def run(case):
    import pathlib
    from rsbeams.rsdata.switchyard import Switchyard
    from rsbeams.rsptcls.species import Species
    io = core.io()
    c = beams.coords(case['n'], case['s'], case['kind'])
    data = np.asfortranarray(c) if case['order'] == 'F' else c.copy()
    if case['order'] == 'ro':
        data.flags.writeable = False
    charge = charge_of(case['charge'], case['s'])
    sw = Switchyard()
    sw.species['beam'] = Species(data, charge=-1, mass=0.511e6, total_charge=charge)
    fmt = case['fmt']
    kw = {'version': case['version']} if fmt == 'genesis' and case['version'] else {}
    p = path('out')
    target = pathlib.Path(p) if case['pathlike'] else p
    want = float(np.squeeze(charge))

    def prepare():
        Scratch.clean()
        if case['old'] is not None:
            put('out', b'7.0 old line\n' * (case['old'] // 13 + 1))

    def export():
        return sw.write(target, fmt, 'beam', **kw)

    def intact(why):
        if not same_array(np.asarray(sw.species['beam'].coordinates), c) or float(np.squeeze(sw.species['beam'].total_charge)) != want:
            raise Violation('altered', '%s: the registered species was altered' % why)
    prepare()
    io.reset()
    st, v = attempt(export, io)
    STAT['runs'] += 1
    if st == 'raise':
        raise Violation('export-raises', '%s export of %d particles on a healthy disk raises %r' % (fmt, case['n'], v))
    d = beams.check_export(fmt, get('out'), c, want, kw)
    if d:
        raise Violation('incomplete', 'after a fault-free %s export: %s' % (fmt, d))
    intact('%s export' % fmt)
    ops = {'write': io.count['write'], 'close': io.count['close'], 'open': io.count['open'], 'bytes': len(get('out'))}
    ev = [ops]
    for f, plan in expand(case['faults'], ops):
        prepare()
        io.reset(plan)
        st, v = attempt(export, io)
        STAT['runs'] += 1
        note_io(io)
        if st == 'ok':
            d = beams.check_export(fmt, get('out'), c, want, kw)
            if d:
                raise Violation('silent-loss', 'the %s export returned normally under %s but %s' % (fmt, plan, d), fault=f['k'])
        elif not io.fired:
            raise Violation('spurious', 'the export raised %r although no fault was injected' % (v,))
        elif isinstance(v, SystemExit):
            raise Violation('exit', 'the export exits the interpreter')
        intact('%s export with %s' % (fmt, plan))
        state(fmt, case['n'] > 0, sorted(io.fired), st, [e[0] + ('!' if e[4] < 0 or e[0] == 'write' and e[4] < e[2] else '') for e in io.log][:50])
        prepare()
        io.reset()
        st2, v2 = attempt(export, io)
        d = repr(v2) if st2 == 'raise' else beams.check_export(fmt, get('out'), c, want, kw)
        STAT['runs'] += 1
        if d:
            raise Violation('retry', 'a later %s export on a healthy disk fails after %s: %s' % (fmt, plan, d))
        ev.append([len(ev), st, dict(io.fired)])
    return ev


def shrink(case):
    from props import c01
    for c in c01.shrink(dict(case, spec={'cols': [], 'params': [], 'n': 0}, path='str')):
        if c['spec'] == {'cols': [], 'params': [], 'n': 0}:
            del c['spec'], c['path']
            yield c
    yield from shrink_int(case, ('n',))
    for k, v in (('kind', 'ramp'), ('charge', 'float'), ('order', 'C'), ('version', None), ('pathlike', 0)):
        if case[k] != v:
            yield set_at(case, (k,), v)
