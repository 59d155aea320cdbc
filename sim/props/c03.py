"""C03: SDDS write-then-read returns exactly what was written."""
import numpy as np
from core import *
import core, wspec, sddsref


def gen(r, i, tier):
    def faults(kind):
        out = []
        if r.random() < .6:
            out.append({'k': 'short', 's': r.randint(0, 10**9), 'p': r.choice([.2, .6, .95]), 'max': r.choice([1, 2, 5, 64, 0])})
        if r.random() < .3:
            out.append({'k': 'eintr', 's': r.randint(0, 10**9), 'p': .3})
        return out
    return {'spec': wspec.gen(r, big=r.random() < .4, maxcols=8), 'mode': r.choice(['ascii', 'binary']), 'wf': faults('w'),
            'rf': [faults('r'), faults('r')], 'reuse': int(r.random() < .2)}


def compare(rd, spec, label):
    from sddsref import field_list, read_meta
    live = [p for p in spec['params'] if p.get('fixed') is None]
    # names and order
    if live:
        pp = rd.parameters
        if pp is None or len(pp) != 1:
            raise Violation('pages', '%s: %s pages of parameters, 1 was written' % (label, None if pp is None else len(pp)))
        names = [n for n in pp[0].dtype.names if n not in ('row_counts', 'record_length')]
        if names != [p['name'] for p in live]:
            raise Violation('names', '%s: parameters are %s, written %s' % (label, names, [p['name'] for p in live]))
        for p in live:
            g = field_list(pp[0], p['name'])
            w = wspec.par_value(p)[1]
            if len(g) != 1 or not (g[0] == w if p['type'] == 'string' else same_array(np.asarray(g, float), np.array([w], float))):
                raise Violation('parameter', '%s: parameter %s (%s) is %r, written %r' % (label, p['name'], p['type'], list(g), w))
    if spec['cols']:
        cc = rd.columns
        if cc is None or len(cc) != 1:
            raise Violation('pages', '%s: %s pages of columns, 1 was written' % (label, None if cc is None else len(cc)))
        names = [n for n in cc[0].dtype.names]
        if names != [c['name'] for c in spec['cols']]:
            raise Violation('names', '%s: columns are %s, written %s' % (label, names, [c['name'] for c in spec['cols']]))
        for c in spec['cols']:
            g = field_list(cc[0], c['name'])
            w = wspec.col_values(c, spec['n'])[1]
            if not same_array(g, w):
                raise Violation('column', '%s: column %s (%s): %s' % (label, c['name'], c['type'], first_diff(np.asarray(g), w)))
    got, want = read_meta(rd, spec), sddsref.expected_meta(spec)
    for k in want:
        g, w = list(got[k]), list(want[k])
        if g != w:
            raise Violation('metadata', '%s: metadata of %s are %r, written %r' % (label, k, g, w))


def run(case):
    from rsbeams.rsdata.SDDS import readSDDS
    io = core.io()
    spec, mode = case['spec'], case['mode']
    p = path('f.sdds')
    w = wspec.build(spec)
    if case.get('reuse'):
        attempt(lambda: w.save_sdds(path('g.sdds'), 'binary' if mode == 'ascii' else 'ascii'), io)
    io.reset(case['wf'])
    st, v = attempt(lambda: w.save_sdds(p, mode), io)
    note_io(io)
    if st == 'raise':
        raise Violation('write-raises', 'writing a valid data set raises %r' % (v,))
    ev = [len(get('f.sdds'))]
    for buf, plan in ((True, case['rf'][0]), (False, case['rf'][1])):
        io.reset(plan)
        STAT['runs'] += 1

        def go():
            rd = readSDDS(p, buffer=buf)
            rd.read()
            return rd
        st, rd = attempt(go, io)
        note_io(io)
        label = '%s %s' % (mode, 'buffered' if buf else 'unbuffered')
        if st == 'raise':
            raise Violation('read-raises', '%s: reading back a written file raises %r' % (label, rd))
        compare(rd, spec, label)
        ev.append([buf, len(io.log), dict(io.fired)])
        state(mode, buf, [(c['type'], c['c']) for c in spec['cols']], [(q['type'], q.get('fixed') is not None) for q in spec['params']],
              min(spec['n'], 2), sorted(io.fired))
    return ev


def shrink(case):
    for k in ('wf', 'rf'):
        if any(case[k]):
            yield set_at(case, (k,), [] if k == 'wf' else [[], []])
    if case.get('reuse'):
        yield set_at(case, ('reuse',), 0)
    yield from wspec.shrink(case, 'spec')
