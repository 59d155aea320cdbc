"""C10: a saved beamline loads back identically, or the failure is reported."""
import json
from core import *
import core, lat


def gen(r, i, tier):
    saves = []
    for _ in range(r.randint(2, 6)):
        t = choose(r, [(3, None), (2, 'enospc'), (2, 'eio'), (1, 'close'), (.7, 'open'), (1, 'short')])
        saves.append({'t': t, 'at': frac(r, 6), 's': r.randint(0, 10**9), 'sticky': r.randint(0, 1), 'lost': r.choice([0, 1, 10**9]), 'minus': r.choice([0, 1, 1])})
    loads = []
    for _ in range(r.randint(2, 5)):
        t = choose(r, [(3, None), (3, 'eio'), (.7, 'open'), (1.5, 'short'), (1.5, 'nonempty')])
        loads.append({'t': t, 'at': frac(r, 6), 's': r.randint(0, 10**9), 'max': r.choice([1, 7, 0])})
    return {'tree': lat.gen_tree(r), 'saves': saves, 'loads': loads, 'cycles': r.choice([1, 1, 2, 3]), 'edit': r.randint(0, 1)}


def run(case):
    from rsbeams.rslattice.Beamline import StructuredBeamline
    io = core.io()
    top = StructuredBeamline('ring')
    lat.build(top, case['tree'])
    want = lat.model_of(case['tree'])
    d = lat.diff(top, want)
    if d:
        raise Violation('build', 'the beamline built is not the one described: ' + d)
    p = path('line.yaml')
    io.reset()
    st, v = attempt(lambda: top.save_beamline(p), io)
    STAT['runs'] += 1
    if st == 'raise':
        raise Violation('save-raises', 'saving a beamline on a healthy disk raises %r' % (v,))
    good = get('line.yaml')
    nw, nc = io.count['write'], io.count['close']
    ev = [len(good)]

    def fresh_load(why, plan=(), fn=p):
        new = StructuredBeamline('new')
        io.reset(plan)
        st, v = attempt(lambda: new.load_beamline(fn, 'elegant'), io)
        note_io(io)
        return st, v, new

    def must_be_complete(why):
        st, v, new = fresh_load(why)
        d = 'loading raises %r' % (v,) if st == 'raise' else lat.diff(new, want)
        if d:
            raise Violation('incomplete', '%s: %s' % (why, d))
        return new
    new = must_be_complete('save and load')
    for c in range(case['cycles'] - 1):
        io.reset()
        st, v = attempt(lambda: new.save_beamline(path('again.yaml')), io)
        if st == 'raise':
            raise Violation('save-raises', 'saving a loaded beamline raises %r' % (v,))
        st, v, new = fresh_load('again', fn=path('again.yaml'))
        d = 'raises %r' % (v,) if st == 'raise' else lat.diff(new, want)
        if d:
            raise Violation('incomplete', 'save and load no. %d: %s' % (c + 2, d))
    flatten = [(e.name, e.type, dict(e.parameters)) for e in new.get_beamline_elements()]
    for g, w in zip(flatten, lat.flat(want)):
        if g[0] != w[0] or g[1] != w[1]:
            raise Violation('order', 'element %r, expected %r' % (g[0], w[0]))
    if len(flatten) != len(list(lat.flat(want))):
        raise Violation('order', '%d elements after loading' % len(flatten))
    for s in case['saves']:
        t = s['t']
        plan = {None: [], 'enospc': [{'k': 'enospc', 'cap': max(0, int(s['at'] * len(good)) - s['minus'])}],
                'eio': [{'k': 'eio', 'op': 'write', 'nth': int(s['at'] * nw), 'sticky': s['sticky']}],
                'close': [{'k': 'close', 'nth': int(s['at'] * nc), 'err': 'EIO', 'lost': s['lost']}],
                'open': [{'k': 'open', 'nth': 0, 'err': 'EACCES'}],
                'short': [{'k': 'short', 's': s['s'], 'p': .7, 'max': 0}, {'k': 'eintr', 's': s['s'], 'p': .2}]}[t]
        put('line.yaml', b'- {name: old, type: drift}\n' * (s['s'] % 3))
        io.reset(plan)
        st, v = attempt(lambda: top.save_beamline(p), io)
        note_io(io)
        STAT['runs'] += 1
        hard = [x for x in io.fired if not x.startswith(('short', 'eintr'))]
        why = 'save under %s' % plan
        if st == 'ok':
            must_be_complete(why + ' returned normally')
        elif not hard:
            raise Violation('save-raises', '%s raises %r' % (why, v))
        d = lat.diff(top, want)
        if d:
            raise Violation('altered', '%s altered the beamline: %s' % (why, d))
        state('save', t, st, sorted(io.fired), len(io.log))
        ev.append([t, st])
    put('line.yaml', good)
    nr = None
    for l in case['loads']:
        t = l['t']
        STAT['runs'] += 1
        if t == 'nonempty':
            other = StructuredBeamline('other')
            tree = [['e', 'X1', 'drift', [['L', 2.0]]]] if l['s'] % 2 else [['l', 'sub', []]]
            lat.build(other, tree)
            io.reset()
            st, v = attempt(lambda: other.load_beamline(p, 'elegant'), io)
            d = lat.diff(other, lat.model_of(tree))
            if d or set(other.elements) != ({'X1'} if l['s'] % 2 else set()) or set(other.lines) != (set() if l['s'] % 2 else {'sub'}):
                raise Violation('nonempty', 'loading into a non-empty beamline changed it: %s' % d)
            ev.append([t, st])
            continue
        if nr is None:
            fresh_load('probe')
            nr = io.count['read']
        plan = {None: [], 'eio': [{'k': 'eio', 'op': 'read', 'nth': int(l['at'] * nr), 'sticky': l['s'] & 1}], 'open': [{'k': 'open', 'nth': 0, 'err': 'EMFILE'}],
                'short': [{'k': 'short', 's': l['s'], 'p': .8, 'max': l['max']}, {'k': 'eintr', 's': l['s'], 'p': .2}]}[t]
        st, v, new = fresh_load('load', plan)
        hard = [x for x in io.fired if not x.startswith(('short', 'eintr'))]
        why = 'load under %s' % plan
        if st == 'ok':
            d = lat.diff(new, want)
            if d:
                raise Violation('partial-load', '%s returned normally: %s' % (why, d))
        else:
            if not hard:
                raise Violation('load-raises', '%s raises %r' % (why, v))
            if new.sequence or new.elements or new.lines:
                raise Violation('partial-load', '%s raised but left %d entries in the beamline' % (why, len(new.sequence)))
            # and the same object can load later
            io.reset()
            st, v = attempt(lambda: new.load_beamline(p, 'elegant'), io)
            d = repr(v) if st == 'raise' else lat.diff(new, want)
            if d:
                raise Violation('retry', 'loading again after %s: %s' % (why, d))
        state('load', t, st, sorted(io.fired), len(io.log) > 5)
        ev.append([t, st])
    state('tree', [[type(x).__name__ for x in want]], len(flatten))
    return ev


def shrink(case):
    yield from drop_items(case, ('saves',), ('loads',))
    if case['cycles'] > 1:
        yield set_at(case, ('cycles',), 1)
    for t in lat.shrink_tree(case['tree']):
        yield dict(case, tree=t)
