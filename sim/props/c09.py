"""C09: phase-space files store and load all or nothing."""
import io as _io, json, os
import numpy as np
from core import *
import core

SPECIAL = np.array([0.0, -0.0, 1.0, -1e308, 5e-324, float('inf'), float('-inf'), float('nan'), 1 / 3, 1e-9, 2.0**53 + 2, 12345.678])
SHAPES = [[5, 4], [7, 4], [4, 6], [6], [24], [6, 4, 1], [6, 0], [0, 6], [0], [], [1, 6, 4], [3, 2, 4], [2, 12]]


def same_array(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype:
        return False
    if a.dtype.kind == 'c':
        return core.same_array(a.real, b.real) and core.same_array(a.imag, b.imag)
    return core.same_array(a, b)


def data(n, s, kind='mix'):
    r = np.random.RandomState(s % 2**32)
    a = r.standard_normal((6, n)) * 10.0 ** r.randint(-8, 9, (6, n))
    if kind == 'special':
        m = r.random_sample((6, n)) < .4
        a[m] = SPECIAL[r.randint(0, len(SPECIAL), int(m.sum()))]
    if kind == 'int':
        return r.randint(-2**62, 2**62, (6, n))
    if kind == 'single':
        return r.standard_normal((6, n)).astype('f4')
    if kind == 'complex':
        return a + 1j * a[::-1]
    return a


def gen(r, i, tier):
    ops = []
    for _ in range(r.randint(5, 16)):
        k = choose(r, [(2, 'fill'), (1, 'resize'), (.6, 'badresize'), (.8, 'badset'), (1, 'poke'), (.7, 'name'), (.3, 'badname'),
                       (4, 'write'), (4, 'read'), (2, 'spoil')])
        o = {'k': k, 'o': r.choice([0, 0, 1, 2]), 's': r.randint(0, 10**6)}
        if k in ('fill', 'resize'):
            o['n'] = choose(r, [(5, r.randint(1, 40)), (1, 1), (1, r.randint(41, 400)), (.3, r.randint(401, 4000)), (.4, 6)])
            o['kind'] = r.choice(['mix', 'mix', 'special', 'special', 'int', 'single', 'complex'])
            o['order'] = r.choice(['C', 'C', 'F', 'strided'])
        if k == 'badresize':
            o['n'] = r.choice([0, -1, -6])
        if k == 'badset':
            o['shape'] = r.choice(SHAPES)
        if k == 'name':
            o['name'] = r.choice(['ps6d', 'a', 'b.v1', 'with blank', 'a.npz', 'B', 'b', 'ps6d.npz.bak', '\u03b2'])
        if k == 'write':
            t = choose(r, [(4, None), (2, 'enospc'), (2, 'eio'), (1, 'close'), (.7, 'open'), (1, 'short')])
            if t:
                o['f'] = {'t': t, 'at': frac(r, 6), 's': r.randint(0, 10**9), 'sticky': r.randint(0, 1), 'lost': r.choice([0, 1, 500, 10**9])}
        if k == 'read':
            t = choose(r, [(4, None), (2, 'eio'), (.6, 'open'), (1, 'short')])
            if t:
                o['f'] = {'t': t, 'at': frac(r, 6), 's': r.randint(0, 10**9), 'sticky': r.randint(0, 1)}
        if k == 'spoil':
            o['how'] = r.choice(['cut', 'cut', 'cut', 'flip', 'flip', 'shape', 'shape', 'key', 'remove', 'garbage', 'empty', 'object', 'append', 'npy'])
            o['at'] = frac(r, 6)
            o['shape'] = r.choice(SHAPES)
        ops.append(o)
    return {'ops': ops}


def run(case):
    from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
    io = core.io()
    objs = [RsPhaseSpace6D(3), RsPhaseSpace6D(1), RsPhaseSpace6D(8)]
    mem = [np.zeros((6, 3)), np.zeros((6, 1)), np.zeros((6, 8))]
    names = ['ps6d'] * 3
    disk = {}              # name -> list of acceptable contents (arrays); None in the list = a read may raise
    ev = []

    def verify(why):
        for j, o in enumerate(objs):
            a = o.get_array_6d()
            if not same_array(a, mem[j]):
                raise Violation('memory', '%s: the array of object %d is not the expected one (%s)' % (why, j, first_diff(a, mem[j])))
            if o.get_num_ptcls() != mem[j].shape[1]:
                raise Violation('count', '%s: object %d reports %r particles, its array has %d' % (why, j, o.get_num_ptcls(), mem[j].shape[1]))
            if o.get_file_name() != names[j]:
                raise Violation('name', '%s: object %d has file name %r' % (why, j, o.get_file_name()))
            for q, g in enumerate(('x', 'xp', 'y', 'yp', 's', 'dp')):
                if not same_array(getattr(o, 'get_array_' + g)(), mem[j][q]):
                    raise Violation('memory', '%s: accessor of %s of object %d' % (why, g, j))
    for o in case['ops']:
        k, j = o['k'], o['o']
        ob = objs[j]
        STAT['runs'] += 1
        fn = names[j] + '.npz'
        f = o.get('f')
        why = '%s%s' % (k, ' with %s' % f if f else '')
        st = 'ok'
        io.reset()
        if k == 'fill':
            a = data(o['n'], o['s'], o['kind'])
            mem[j] = a.copy()
            if o['order'] == 'F':
                a = np.asfortranarray(a)
            elif o['order'] == 'strided':
                b = np.zeros((6, 2 * o['n']), a.dtype)
                b[:, ::2] = a
                a = b[:, ::2]
            ob.set_array_6d(a)
        elif k == 'resize':
            ob.set_num_ptcls(o['n'])
            mem[j] = np.zeros((6, o['n']))
        elif k == 'badresize':
            st, v = attempt(lambda: ob.set_num_ptcls(o['n']))
            if st == 'ok':
                raise Violation('accepted', 'particle number %d is accepted' % o['n'])
        elif k == 'badset':
            st, v = attempt(lambda: ob.set_array_6d(np.zeros(o['shape'])))
            if st == 'ok':
                raise Violation('accepted', 'an array of shape %s is accepted' % o['shape'])
        elif k == 'poke':
            a = ob.get_array_6d()
            q = (o['s'] % 6, o['s'] % a.shape[1])
            if a.flags.writeable:
                a[q] = o['s'] / 7
                mem[j][q] = o['s'] / 7
        elif k == 'name':
            ob.set_file_name(o['name'])
            names[j] = o['name']
        elif k == 'badname':
            st, v = attempt(lambda: ob.set_file_name(''))
            if st == 'ok':
                raise Violation('accepted', 'an empty file name is accepted')
        elif k == 'write':
            plan = []
            if f:
                n_est = mem[j].size * 8 + 500
                plan = {'enospc': [{'k': 'enospc', 'cap': int(f['at'] * n_est)}], 'eio': [{'k': 'eio', 'op': 'write', 'nth': int(f['at'] * (4 + n_est // 8192)), 'sticky': f['sticky']}],
                        'close': [{'k': 'close', 'nth': 0, 'err': 'EIO', 'lost': f['lost']}], 'open': [{'k': 'open', 'nth': 0, 'err': 'EACCES'}],
                        'short': [{'k': 'short', 's': f['s'], 'p': .7, 'max': 0}, {'k': 'eintr', 's': f['s'], 'p': .2}]}[f['t']]
            io.reset(plan)
            st, v = attempt(ob.write_array, io)
            note_io(io)
            hard = [x for x in io.fired if not x.startswith(('short', 'eintr'))]
            if st == 'ok':
                disk[fn] = [mem[j].copy()]
                try:
                    with np.load(_io.BytesIO(get(fn) or b'')) as d:
                        a = d['a']
                except Exception as e:
                    raise Violation('silent-loss', '%s returned normally but the file cannot be read (%r)' % (why, e))
                if not same_array(a, mem[j]):
                    raise Violation('silent-loss', '%s returned normally but the file holds other data (%s)' % (why, first_diff(a, mem[j])))
            else:
                if not hard:
                    raise Violation('write-raises', '%s raises %r' % (why, v))
                disk[fn] = [x for x in disk.get(fn, []) if x is not None] + [mem[j].copy(), None]
        elif k == 'spoil':
            b = get(fn)
            h = o['how']
            had = disk.get(fn, [None])
            if h == 'remove' or b is None and h in ('cut', 'flip', 'append'):
                if b is not None:
                    os.unlink(path(fn))
                disk[fn] = [None]
                why = 'remove'
            elif h == 'cut':
                put(fn, b[:int(o['at'] * len(b))])
                disk[fn] = [None]
            elif h == 'flip':
                q = int(o['at'] * len(b)) if len(b) else 0
                put(fn, b[:q] + bytes([b[q] ^ (1 << (o['s'] % 8))]) + b[q + 1:] if b else b'')
                disk[fn] = had + [None]
            elif h == 'append':
                put(fn, b + b'x' * (1 + o['s'] % 50))
                disk[fn] = had + [None]
            else:
                bio = _io.BytesIO()
                if h == 'shape':
                    np.savez(bio, a=np.ones(o['shape']))
                elif h == 'key':
                    np.savez(bio, b=np.ones((6, 3)))
                elif h == 'object':
                    np.savez(bio, a=np.array([[None] * 3] * 6, object))
                elif h == 'npy':
                    np.save(bio, np.ones((5, 3)))
                elif h == 'garbage':
                    bio.write(np.random.RandomState(o['s']).bytes(300))
                put(fn, bio.getvalue())
                disk[fn] = [None]
            fired('spoil_' + h)
        elif k == 'read':
            plan = []
            if f and f['t'] == 'eio':
                probe_obj = RsPhaseSpace6D(2)
                probe_obj.set_file_name(names[j])
                attempt(probe_obj.read_array, io)
                plan = [{'k': 'eio', 'op': 'read', 'nth': int(f['at'] * max(1, io.count['read'])), 'sticky': f['sticky']}]
            elif f and f['t'] == 'open':
                plan = [{'k': 'open', 'nth': 0, 'err': 'EACCES'}]
            elif f:
                plan = [{'k': 'short', 's': f['s'], 'p': .7, 'max': 0}, {'k': 'eintr', 's': f['s'], 'p': .2}]
            io.reset(plan)
            st, v = attempt(ob.read_array, io)
            note_io(io)
            hard = [x for x in io.fired if not x.startswith(('short', 'eintr'))]
            can = disk.get(fn, [None])
            if st == 'ok':
                a = ob.get_array_6d()
                hit = [x for x in can if x is not None and same_array(a, x)]
                if not hit:
                    raise Violation('wrong-data', '%s of %s returned normally with data that were not stored (%s)' % (
                        why, fn, 'the file is missing or damaged' if can == [None] else first_diff(a, next(x for x in can if x is not None))))
                mem[j] = hit[0].copy()
                probe('read_ok')
            else:
                if not hard and not any(x is None for x in can):
                    raise Violation('read-raises', '%s of a complete file raises %r' % (why, v))
                probe('read_refused')
        verify(why)
        ev.append([k, st, dict(io.fired)])
        state(k, o.get('how'), f and f['t'], st, sorted(io.fired), mem[j].shape[1] > 1, len([x for x in disk.get(fn, [None]) if x is not None]))
    return ev


def shrink(case):
    yield from drop_items(case, ('ops',))
    for i, o in enumerate(case['ops']):
        if 'f' in o:
            c = json.loads(json.dumps(case))
            del c['ops'][i]['f']
            yield c
        if 'n' in o and o['n'] > 1:
            yield from shrink_int(case, ('ops', i, 'n'), 1)
        if o['o']:
            yield set_at(case, ('ops', i, 'o'), 0)
