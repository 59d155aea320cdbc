"""C02: a refused SDDS save leaves the existing file untouched."""
import json
import numpy as np
from core import *
import core, wspec

BAD = ['lengths', 'lengths', 'lengths', 'twodim', 'par_none', 'string_col', 'mode', 'overflow', 'fraction', 'nan', 'text', 'par_overflow', 'par_fraction', 'par_text', 'meta_code', 'par_code', 'par_newline', 'complex', 'complex', 'fixed_and_data', 'col_type', 'par_type']


def gen(r, i, tier):
    ops = []
    for _ in range(r.randint(2, 9)):
        k = choose(r, [(3, 'save'), (4, 'bad'), (1, 'badmode_then_good'), (1, 'openfail')])
        o = {'k': k, 'file': r.choice(['a', 'a', 'b']), 'mode': r.choice(['ascii', 'binary'])}
        sp = wspec.gen(r, big=False, maxcols=4)
        sp['n'] = min(sp['n'], 40)
        o['spec'] = sp
        if k == 'bad':
            o['bad'] = r.choice(BAD)
            o['s'] = r.randint(0, 10**6)
            o['saved'] = r.choice([None, None, 'a', 'b'])       # the object was saved before it was spoiled
        if k in ('bad', 'badmode_then_good'):
            o['badmode'] = r.choice(['Binary', 'text', '', None, 'ascii ', 'bin', 3])
        if k == 'openfail':
            o['err'] = r.choice(['EACCES', 'EMFILE', 'ENOSPC', 'EROFS', 'EISDIR', 'EIO'])
        ops.append(o)
    return {'ops': ops}


def spoil(spec, o, w):
    """Turn the data set into one that cannot be represented.  -> writer"""
    import random
    r = random.Random(o['s'])
    w = _spoil(spec, o, r, w)
    # the entry that cannot be represented may stand anywhere
    for part in (w.columns, w.parameters):
        bad = [q for q in part if q.get('colName', q.get('parName')).startswith('q_')]
        if bad and r.random() < .6:
            part[:] = [q for q in part if not any(q is z for z in bad)]
            for q in bad:
                part.insert(r.randint(0, len(part)), q)
    return w


def _spoil(spec, o, r, w):
    from rsbeams.rsdata.SDDS import writeSDDS
    b = o['bad']
    n = spec['n']
    if b == 'lengths':
        m = r.choice([q for q in (0, 1, 1, 1, n + 1, n + 2, n + 5, n - 1, n - 2, 2 * n) if q >= 0 and q != n])
        if not spec['cols']:
            w.create_column('q_a', np.zeros(n), 'double')
        w.create_column('q_b', np.arange(m), r.choice(['double', 'long']))
    elif b == 'twodim':
        if not spec['cols']:
            n = 3
        w.create_column('q_b', np.zeros((max(n, 1), r.choice([2, 3]))), r.choice(['double', 'long']))
    elif b == 'par_none':
        w.create_parameter('q_p', None, r.choice(['double', 'long', 'string']))
    elif b == 'string_col':
        w.create_column('q_c', np.array(['x%d' % k for k in range(n if spec['cols'] else 2)] or ['x']), 'string')
    elif b in ('overflow', 'fraction', 'nan', 'text'):
        t = r.choice(['short', 'long']) if b != 'text' else r.choice(['short', 'long', 'double'])
        m = n if spec['cols'] else 3
        if m == 0:
            del w.columns[:]
            m = 2
        v = np.zeros(m)
        j = r.randrange(m)
        if b == 'overflow':
            v = np.zeros(m, np.int64)
            v[j] = r.choice([2**31, -2**31 - 1, 2**40, 2**33 + 1]) if t == 'long' else r.choice([2**15, -2**15 - 1, 65536, 2**20 + 3])
        elif b == 'fraction':
            v[j] = r.choice([0.5, 1e-9, -2.25, 1234.0001])
        elif b == 'nan':
            v[j] = r.choice([float('nan'), float('inf')])
        else:
            v = np.array(['abc'] * m)
        w.create_column('q_c', v, t)
    elif b in ('meta_code', 'par_code', 'par_newline'):
        spoil_text(w, o, None)
    elif b == 'complex':
        m = n if spec['cols'] else 3
        if m == 0:
            del w.columns[:]
            m = 2
        v = r.choice([np.arange(m) + 1j, np.array([None] * (m - 1) + [1j]), np.arange(m).astype('datetime64[s]'), np.array([b'ab'] * m), np.array([[1]] * (m - 1) + [[1, 2]], dtype=object)])
        w.create_column('q_c', v, r.choice(['double', 'long', 'float']))
    elif b == 'fixed_and_data':
        # the value of a parameter is either in the header or in the pages
        w.create_parameter('q_p', 1.5, 'double', parFixedVal=r.choice([2.5, 1.5]))
    elif b in ('col_type', 'par_type'):
        t = r.choice(['float128', 'Double', 'char', 'int', '', 'longs', None])
        if b == 'col_type':
            w.create_column('q_c', np.zeros(n if spec['cols'] else 2), t)
        else:
            w.create_parameter('q_p', 1.5, t)
    elif b.startswith('par_'):
        t = r.choice(['short', 'long'])
        v = {'par_overflow': r.choice([2**31, -2**40]), 'par_fraction': r.choice([0.5, -1.25]), 'par_text': 'abc'}[b]
        w.create_parameter('q_p', v, t)
    return w


def spoil_text(w, o, mode):
    """Text that cannot be encoded, or a line break where a value must be one line"""
    b = o['bad']
    if b == 'meta_code':
        k = ['Units', 'Symbol', 'Description', 'FormatStr'][o['s'] % 4]
        if o['s'] % 3:
            w.create_parameter('q_p', 1.5, 'double', **{'par' + k: 'a\udc80'})
        else:
            w.create_column('q_c', np.zeros(len(w.columns[0]['colData']) if w.columns else 2), 'double', **{'col' + k: '\ud800b'})
    elif b == 'par_code':
        w.create_parameter('q_p', 'ab\udcffc', 'string')
    else:
        w.create_parameter('q_p', 'ab\ncd', 'string')


def run(case):
    io = core.io()
    held = {'a': None, 'b': None}
    ev = []
    for o in case['ops']:
        name = o['file'] + '.sdds'
        target = path(name)
        spec, mode = o['spec'], o['mode']
        k = o['k']
        STAT['runs'] += 1

        def unchanged(why, io_plan=None):
            for f in held:
                if get(f + '.sdds') != held[f]:
                    now = get(f + '.sdds')
                    raise Violation('touched', '%s: file %s.sdds %s' % (why, f, 'is gone' if now is None else 'has %d bytes, %s before' % (
                        len(now), 'did not exist' if held[f] is None else '%d' % len(held[f]))), op=k)
        def reuse(w, what):
            sp = dict(spec)
            if not w.columns:
                sp['cols'] = []
            if ([q['colName'] for q in w.columns if not q['colName'].startswith('q_')] != [q['name'] for q in sp['cols']]
                    or [q['parName'] for q in w.parameters if not q['parName'].startswith('q_')] != [q['name'] for q in sp['params']]):
                return
            io.reset()
            st, v = attempt(lambda: w.save_sdds(target, mode), io)
            if st == 'raise':
                raise Violation('unusable', 'a valid save of %s raises %r' % (what, v), op=k)
            d = wspec.problem(get(name), sp, mode)
            if d:
                raise Violation('incomplete', 'a valid save of %s: %s' % (what, d), op=k)
            held[o['file']] = get(name)
            probe('refused_object_reused')
        if k == 'save':
            w = wspec.build(spec)
        elif k == 'bad':
            if o['bad'] == 'mode':
                w = wspec.build(spec)
                mode = o['badmode']
            else:
                w = wspec.build(spec)
                if o['saved']:
                    io.reset()
                    st, v = attempt(lambda: w.save_sdds(path(o['saved'] + '.sdds'), mode), io)
                    d = repr(v) if st == 'raise' else wspec.problem(get(o['saved'] + '.sdds'), spec, mode)
                    if d:
                        raise Violation('incomplete', 'a valid save: %s' % d, op=k)
                    held[o['saved']] = get(o['saved'] + '.sdds')
                    probe('saved_object_spoiled')
                st, q = attempt(lambda: spoil(spec, o, w))
                if st == 'raise':
                    # refused already when it was handed in
                    if o['bad'] not in ('fixed_and_data', 'complex', 'col_type', 'par_type'):
                        raise q
                    unchanged('a refused parameter')
                    fired('refusal_' + o['bad'])
                    reuse(w, 'an object that refused an entry before')
                    continue
                w = q
            if o['bad'] == 'par_newline':
                mode = 'ascii'
            io.reset()
            st, v = attempt(lambda: w.save_sdds(target, mode), io)
            ev.append([k, o['bad'], st])
            state(k, o['bad'], mode, held[o['file']] is not None, st, len(spec['cols']), spec['n'] > 0)
            fired('refusal_' + o['bad'])
            if st == 'ok':
                raise Violation('not-refused', 'saving %s returned normally' % {
                    'lengths': 'columns of different lengths', 'mode': 'with data mode %r' % (mode,),
                    'fixed_and_data': 'a parameter with both a fixed value and a value', 'twodim': 'a two-dimensional column', 'par_none': 'a parameter without a value', 'string_col': 'a column of text',
                    'meta_code': 'metadata that cannot be encoded', 'par_code': 'text that cannot be encoded', 'par_newline': 'text with a line break in ASCII mode',
                }.get(o['bad'], 'a value that does not fit the declared type (%s)' % o['bad']), bad=o['bad'])
            unchanged('a save refused with %r' % (v,))
            if o['bad'] != 'mode' and w.columns + w.parameters and not (o['s'] // 7) % 2:
                # the object stays usable once the offending entry is taken out
                for part in (w.columns, w.parameters):
                    part[:] = [q for q in part if not q.get('colName', q.get('parName')).startswith('q_')]
                reuse(w, 'an object whose previous save was refused')
            continue
        elif k == 'badmode_then_good':
            w = wspec.build(spec)
            io.reset()
            st, v = attempt(lambda: w.save_sdds(target, o['badmode']), io)
            fired('refusal_mode')
            if st == 'ok':
                raise Violation('not-refused', 'saving with data mode %r returned normally' % (o['badmode'],), bad='mode')
            unchanged('a save refused with %r' % (v,))
        elif k == 'openfail':
            w = wspec.build(spec)
            io.reset([{'k': 'open', 'nth': 0, 'err': o['err']}])
            st, v = attempt(lambda: w.save_sdds(target, mode), io)
            note_io(io)
            if io.fired and st == 'ok':
                d = wspec.problem(get(name), spec, mode)
                if d:
                    raise Violation('silent-loss', 'the file could not be opened (%s) and the save returned normally: %s' % (o['err'], d))
                held[o['file']] = get(name)
                continue
            unchanged('a save whose open failed with %s' % o['err'])
        io.reset()
        st, v = attempt(lambda: w.save_sdds(target, mode), io)
        if st == 'raise':
            raise Violation('unusable', 'a valid save %s raises %r' % ('after a refused one' if k != 'save' else '', v), op=k)
        d = wspec.problem(get(name), spec, mode)
        if d:
            raise Violation('incomplete', 'a valid save (%s): %s' % (k, d), op=k)
        other = 'b' if o['file'] == 'a' else 'a'
        if get(other + '.sdds') != held[other]:
            raise Violation('touched', 'saving %s changed %s.sdds' % (name, other))
        held[o['file']] = get(name)
        ev.append([k, mode, digest(held[o['file']].hex())])
        state(k, mode, len(spec['cols']), spec['n'] > 0, [e[0] for e in ev][-4:])
    return ev


def shrink(case):
    yield from drop_items(case, ('ops',))
    for i, o in enumerate(case['ops']):
        sub = {'spec': o['spec']}
        for c in wspec.shrink(sub, 'spec'):
            yield set_at(case, ('ops', i, 'spec'), c['spec'])
