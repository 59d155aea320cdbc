"""C07: the species registry survives any history of imports, exports and failures."""
import json
import numpy as np
from core import *
import core, beams

FORMATS = ['elegant', 'opal', 'genesis']


def setup():
    import h5py, pandas            # imported before any run


def gen_file(r):
    n = choose(r, [(5, r.randint(2, 30)), (1, 1), (.4, 0), (1, r.randint(31, 300))])
    if r.random() < .55:
        return {'fmt': 'elegant', 'n': n, 's': r.randint(0, 10**6), 'kind': r.choice(['mix', 'beam', 'ramp', 'const']),
                'mode': r.choice(['binary', 'binary', 'ascii']), 'charge': r.choice([None, 0.0, 1e-9, -2.5e-10, 1 / 3]),
                'low': r.sample(['x', 'xp', 'y', 'yp', 't', 'p'], r.randint(1, 6)) if r.random() < .15 else [],
                'text': r.sample(['L1', 'Q:2#1', '27871M', 'SVN 2021.4'], r.randint(1, 2)) if r.random() < .3 else [],
                'extra': r.randint(0, 1), 'order': r.choice([0, 0, r.randint(1, 999)])}
    nums = sorted(r.sample(range(0, 12), r.randint(1, 4)))
    return {'fmt': 'opal', 'steps': [[k, choose(r, [(5, r.randint(2, 40)), (1, 1), (.5, 0)]), r.randint(0, 10**6)] for k in nums],
            'kind': r.choice(['mix', 'beam', 'ramp']), 'charge_attr': r.choice(['CHARGE', 'TotalCharge']), 'charge': r.choice([-1e-9, 1 / 3 * 1e-9, 4e-12, 0.0]),
            'attach': r.randint(0, 1), 'bare': int(r.random() < .3), 'packed': int(r.random() < .15),
            'dt': {k: r.choice(['<f4', '<f4', '>f8']) for k in beams.NAMES6 if r.random() < .3} if r.random() < .3 else {}}


def gen(r, i, tier):
    files = [gen_file(r) for _ in range(r.randint(1, 4))]
    ops = []
    for _ in range(r.randint(4, 14)):
        k = choose(r, [(6, 'read'), (3, 'write'), (1, 'badformat'), (1, 'missing')])
        o = {'k': k, 'sw': r.choice([0, 0, 1]), 'name': r.choice([None, None, 'a', 'b', 'electrons', 'species_0', ''])}
        if k == 'read':
            o['file'] = r.randrange(len(files))
            f = files[o['file']]
            if f['fmt'] == 'opal':
                o['step'] = r.choice([None, None] + [s[0] for s in f['steps']] + [99])
            o['as'] = f['fmt'] if r.random() < .92 else ('opal' if f['fmt'] == 'elegant' else 'elegant')
            t = choose(r, [(5, None), (2, 'eio'), (2, 'trunc'), (.5, 'open'), (.7, 'short')])
            if t:
                o['fault'] = {'t': t, 'f': frac(r, 6), 's': r.randint(0, 10**9)}
        if k == 'write':
            o['fmt'] = r.choice(FORMATS)
            if r.random() < .3:
                o['fault'] = {'t': r.choice(['eio', 'enospc', 'open']), 'f': frac(r, 6)}
        if k == 'badformat':
            o['fmt'] = r.choice(['genesis', 'Elegant', 'sdds', None, '', 'OPAL'])
            o['file'] = r.randrange(len(files))
        if k == 'missing':
            o['fmt'] = r.choice(['elegant', 'opal'])
        ops.append(o)
    return {'files': files, 'ops': ops}


def store(k, f):
    if f['fmt'] == 'elegant':
        put('in%d' % k, beams.elegant_bytes(f))
    else:
        beams.opal_write(path('in%d' % k), f)


def run(case):
    from rsbeams.rsdata.switchyard import Switchyard
    io = core.io()
    content = {}
    for k, f in enumerate(case['files']):
        store(k, f)
        content[k] = get('in%d' % k)
    sws = [Switchyard(), Switchyard()]
    model = [{}, {}]           # name -> (coords, charge, object, snapshot)
    ev = []

    def verify(why):
        for j in (0, 1):
            reg = sws[j].species
            if list(reg) != list(model[j]):
                raise Violation('registry', '%s: registry %d has %s, expected %s' % (why, j, list(reg), list(model[j])))
            for nm, (obj, snap, charge) in model[j].items():
                if reg[nm] is not obj:
                    raise Violation('replaced', '%s: species %r of registry %d was replaced' % (why, nm, j))
                if not same_array(obj.coordinates, snap) or float(np.squeeze(obj.total_charge)) != charge:
                    raise Violation('altered', '%s: species %r of registry %d was altered' % (why, nm, j))
    for o in case['ops']:
        sw, mod = sws[o['sw']], model[o['sw']]
        STAT['runs'] += 1
        name = o['name']
        k = o['k']
        ft = o.get('fault')
        if k == 'read':
            f = case['files'][o['file']]
            fn = 'in%d' % o['file']
            b = content[o['file']]
            plan = []
            must_fail = False
            if f['fmt'] == 'elegant':
                want, charge = beams.elegant_expected(f)
                kw = {}
            else:
                want, charge = beams.opal_expected(f, o['step'])
                kw = {} if o['step'] is None else {'step_number': o['step']}
                must_fail = want is None
            if o['as'] != f['fmt']:
                kw = {}
                must_fail = True
            src = path(fn)
            if ft and ft['t'] == 'trunc':
                cut = int(ft['f'] * len(b))
                if f['fmt'] == 'elegant' and f['mode'] == 'ascii':
                    cut = b.rfind(b'\n', 0, cut) + 1      # lose whole lines
                if f['fmt'] == 'opal' or cut < len(b):
                    must_fail = True
                if cut == len(b):
                    must_fail = must_fail and o['as'] != f['fmt']
                src = put('cut', b[:cut])
                fired('truncated_' + f['fmt'])
            if ft and ft['t'] in ('eio', 'open', 'short'):
                if ft['t'] == 'short':
                    plan = [{'k': 'short', 's': ft['s'], 'p': .7, 'max': 0}, {'k': 'eintr', 's': ft['s'], 'p': .2}] if f['fmt'] == 'elegant' else \
                        [{'k': 'short', 's': ft['s'], 'p': .7, 'max': 0}]
                elif ft['t'] == 'open':
                    plan = [{'k': 'open', 'nth': 0, 'err': ['EACCES', 'EMFILE', 'EIO'][ft['s'] % 3]}]
                else:
                    io.reset()
                    t = Switchyard()
                    attempt(lambda: t.read(src, o['as'], **kw), io)
                    plan = [{'k': 'eio', 'op': 'read', 'nth': int(ft['f'] * max(1, io.count['read'])), 'sticky': ft['s'] & 1}]
            io.reset(plan)
            args = (src, o['as']) if name is None else (src, o['as'], name)
            st, v = attempt(lambda: sw.read(*args, **kw), io)
            note_io(io)
            hard = any(q.startswith(('eio', 'open')) for q in io.fired)
            why = 'import of %s file as %s under name %r%s' % (f['fmt'], o['as'], name, ' with %s' % ft if ft else '')
            real = name or 'species_0'
            if st == 'ok':
                if must_fail:
                    raise Violation('bad-import', '%s returned normally' % why)
                if real not in mod:
                    if real not in sw.species:
                        raise Violation('registry', '%s returned normally but registered nothing under %r' % (why, real))
                    obj = sw.species[real]
                    got = np.asarray(obj.coordinates)
                    if got.shape != want.shape or not beams.close(got, want):
                        raise Violation('wrong-data', '%s: coordinates are not those of the file (%s)' % (why, first_diff(got, want)))
                    if not beams.close(np.squeeze(obj.total_charge), charge):
                        raise Violation('wrong-data', '%s: total charge is %r, the file has %r' % (why, obj.total_charge, charge))
                    if obj.charge != -1 or not abs(obj.mass - 0.511e6) <= 1e3:
                        raise Violation('wrong-data', '%s: the particles are electrons, not of charge %r and mass %r eV' % (why, obj.charge, obj.mass))
                    if obj.macroparticle_count != len(want):
                        raise Violation('wrong-data', '%s: macroparticle count is %r' % (why, obj.macroparticle_count))
                    for q, a in enumerate(('x', 'ux', 'y', 'uy', 'ct', 'pt')):
                        if not same_array(getattr(obj, a), got[:, q]):
                            raise Violation('wrong-data', '%s: accessor %s does not give coordinate %d' % (why, a, q))
                    mod[real] = (obj, got.copy(), float(np.squeeze(obj.total_charge)))
                probe('import_ok_%s' % f['fmt'])
            else:
                if not must_fail and not hard:
                    raise Violation('import-raises', '%s raises %r' % (why, v))
                probe('import_failed')
        elif k == 'write':
            real = name or next(iter(mod), None)
            plan = []
            if ft:
                plan = {'eio': [{'k': 'eio', 'op': 'write', 'nth': int(ft['f'] * 3)}], 'enospc': [{'k': 'enospc', 'cap': int(ft['f'] * 4000)}],
                        'open': [{'k': 'open', 'nth': 0, 'err': 'EACCES'}]}[ft['t']]
            io.reset(plan)
            args = (path('out'), o['fmt']) if name is None else (path('out'), o['fmt'], name)
            st, v = attempt(lambda: sw.write(*args), io)
            note_io(io)
            why = 'export of %r to %s%s' % (name, o['fmt'], ' with %s' % ft if ft else '')
            if real in mod:
                if st == 'ok':
                    d = beams.check_export(o['fmt'], get('out'), mod[real][1], mod[real][2])
                    if d:
                        raise Violation('export', '%s (first registered: %r): %s' % (why, next(iter(mod)), d))
                    probe('export_ok')
                elif not io.fired:
                    raise Violation('export-raises', '%s raises %r' % (why, v))
            elif st == 'ok':
                raise Violation('export', '%s returned normally, no such species is registered' % why)
        else:
            io.reset()
            if k == 'badformat':
                st, v = attempt(lambda: sw.read(path('in%d' % o['file']), o['fmt'], name), io)
                why = 'import with format %r' % (o['fmt'],)
            else:
                st, v = attempt(lambda: sw.read(path('nowhere'), o['fmt'], name), io)
                why = 'import of a missing file'
            fired(k)
            if st == 'ok':
                raise Violation('bad-import', '%s returned normally' % why)
        verify(why)
        for j, b in content.items():
            if get('in%d' % j) != b:
                raise Violation('input-changed', '%s: the input file was modified' % why)
        ev.append([k, st, sorted(mod)])
        state(k, o.get('as') or o.get('fmt'), name, ft and ft['t'], st, sorted(io.fired), len(mod))
    return ev


def shrink(case):
    yield from drop_items(case, ('ops',))
    for i, o in enumerate(case['ops']):
        if 'fault' in o:
            c = json.loads(json.dumps(case))
            del c['ops'][i]['fault']
            yield c
        if o['name'] is not None:
            yield set_at(case, ('ops', i, 'name'), None)
        if o['sw']:
            yield set_at(case, ('ops', i, 'sw'), 0)
    for i, f in enumerate(case['files']):
        if f['fmt'] == 'elegant':
            yield from shrink_int(case, ('files', i, 'n'))
            for k, v in (('extra', 0), ('order', 0), ('kind', 'ramp'), ('mode', 'binary')):
                if f[k] != v:
                    yield set_at(case, ('files', i, k), v)
        else:
            for q in range(len(f['steps'])):
                yield from shrink_int(case, ('files', i, 'steps', q, 1))
