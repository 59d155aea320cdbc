"""C06: reading an SDDS file while it is being appended yields whole pages only."""
import os, random
from core import *
import core, sddsref, torn
from props.c04 import gen_sel, sel_arg, sel_pages
from props.c05 import trim


def gen(r, i, tier):
    tiny = r.random() < .35          # few lines, many interleavings of single bytes with single lines
    spec = sddsref.gen_spec(r, mode='ascii' if tiny else None, big=not tiny and r.random() < .1, maxpages=3 if tiny else 6, cols=r.randint(1, 2) if tiny else None, params=r.choice([0, 0, 1]) if tiny else None)
    if tiny:
        spec['norc'] = int(r.random() < .75)
        for p in spec['pages']:
            p['n'] = r.randint(1, 4)
    for p in spec['pages']:
        if p['n'] > 200:
            p['n'] = r.randint(1, 60)
    runs = []
    for _ in range(r.randint(12, 24) if tiny else r.randint(4, 9)):
        runs.append({'start': r.choice(['header', 'header', 'page', 'any', 'in_header', 'page_end-']), 'f': frac(r, 6),
                     'split': r.choice(['fine', 'fine', 'lines', 'random'] if tiny else ['pages', 'lines', 'fine', 'random', 'random', 'halves']), 's': r.randint(0, 10**9),
                     'rate': r.choice([.05, .2, .5, .9]), 'burst': r.choice([1, 1, 2, 5]), 'between': r.choice([0, 0, 0, 1, 3]),
                     'buf': int(r.random() < .35), 'sel': gen_sel(r, len(spec['pages'])) if r.random() < .2 else None,
                     'short': r.choice([0, 0, 1, 16, 200])})
    return {'spec': spec, 'runs': runs}


def start_of(q, b, offs):
    n = len(offs) - 1
    if q['start'] == 'header':
        return offs[0]
    if q['start'] == 'page':
        return offs[int(q['f'] * n)]
    if q['start'] == 'page_end-':
        return max(0, offs[int(q['f'] * n)] - 1 - int(q['f'] * 997) % 9)
    if q['start'] == 'in_header':
        return int(q['f'] * offs[0])
    return offs[0] + int(q['f'] * (len(b) - offs[0]))


def chunks_of(q, b, offs, start):
    """The positions at which the producer's write calls end."""
    r = random.Random(q['s'])
    ends = set()
    if q['split'] == 'pages':
        ends.update(offs)
    elif q['split'] == 'lines':
        ends.update(offs)
        ends.update(i + 1 for i, ch in enumerate(b) if ch == 10)
    elif q['split'] == 'fine':
        i = start
        while i < len(b):
            i += r.randint(1, 4)
            ends.add(i)
    elif q['split'] == 'halves':
        for a, c in zip(offs, offs[1:]):
            ends.update([c, a + int((c - a) * r.random())])
    else:
        for _ in range(r.randint(1, 30)):
            ends.add(r.randint(start, len(b)))
    return [e for e in sorted(ends) if start < e < len(b)] + ([len(b)] if start < len(b) else [])


def run(case):
    from rsbeams.rsdata import SDDS
    io = core.io()
    spec = case['spec']
    if not sddsref.valid_spec(spec):
        return 'invalid'
    b, offs = sddsref.encode(spec)
    npg = len(spec['pages'])
    ev = []
    for q in case['runs']:
        sel = trim(q['sel'], npg)
        arg, want = sel_arg(sel), None if sel is None else sel_pages(sel, npg)
        start = start_of(q, b, offs)
        ends = chunks_of(q, b, offs, start)
        p = put('f.sdds', b[:start])
        fd = os.open(p, os.O_WRONLY | os.O_APPEND)
        r = random.Random(q['s'] + 1)
        early = None
        if not q['buf'] and start >= offs[0] and q['s'] % 3 == 0:
            # opened while the producer is at work, read after it is done
            io.reset()
            st, early = attempt(lambda: SDDS.readSDDS(p, buffer=False), io)
            if st == 'raise':
                raise Violation('open', 'opening a file whose header is complete raises %r' % (early,))
        w = {'at': start, 'i': 0, 'sizes': [start], 'log': []}

        def release(k):
            for _ in range(k):
                if w['i'] < len(ends):
                    e = ends[w['i']]
                    os.write(fd, b[w['at']:e])
                    w['at'] = e
                    w['i'] += 1
                    w['sizes'].append(e)

        def before(io_, name, fid, size, pos):
            if r.random() < q['rate']:
                k = w['i']
                release(r.randint(1, q['burst']))
                if w['i'] > k:
                    w['log'].append([len(io_.log), name, w['at']])
                    fired('append_before_' + name)
        try:
            io.reset([{'k': 'short', 's': q['s'], 'p': .6, 'max': q['short']}] if q['short'] else [], before=before, max_ops=20000 + 4 * len(b))

            def go():
                rd = SDDS.readSDDS(p, buffer=bool(q['buf']))
                release(q['between'])
                w['read_at'] = len(w['sizes']) - 1
                rd.read(arg) if arg is not None else rd.read()
                return sddsref.collect(rd, spec)
            st, res = attempt(go, io, budget=800_000)
        finally:
            os.close(fd)
        STAT['runs'] += 1
        note_io(io)
        label = '%s%s %s pages=%r, producer at %d of %d bytes, then up to %s' % (
            spec['mode'], ' without row counts' if spec['norc'] else '', 'buffered' if q['buf'] else 'unbuffered', arg, start, len(b), w['sizes'][1:8])
        if st == 'ok':
            need = torn.complete_pages(spec, offs, start)
            errs = []
            for s in reversed(w['sizes']):
                try:
                    torn.check(spec, b, offs, s, want, res, label, at_least=need, start=start)
                    break
                except Violation as v:
                    errs.append(v)
            else:
                raise errs[0]
            probe('concurrent_read_returned')
        else:
            # an exception is allowed only for a page (or the header) still being written
            if all(s in offs for s in w['sizes']):
                raise Violation('spurious', '%s: only whole pages were ever visible, but the read raises %r' % (label, res))
            probe('concurrent_read_raised')
        state(spec['mode'], spec['norc'], q['buf'], st, w['log'][:12], [x['type'] for x in spec['cols']])
        ev.append([st, w['log'][:40]])
        with open(p, 'ab') as f:
            f.write(b[w['at']:])
        io.reset()
        st, res = attempt(lambda: sddsref.read_all(SDDS, p, bool(q['buf']), arg, spec=spec), io)
        STAT['runs'] += 1
        if st == 'raise':
            raise Violation('final-read', '%s: a read after the producer has finished raises %r' % (label, res))
        sddsref.check_pages(spec, res, want if want is not None else list(range(npg)), label + ', read after the producer has finished')
        if early is not None:
            def late():
                early.read(arg) if arg is not None else early.read()
                return sddsref.collect(early, spec)
            io.reset()
            st, res = attempt(late, io)
            STAT['runs'] += 1
            probe('opened_early_read_late')
            if st == 'raise':
                raise Violation('final-read', '%s: reading after the producer has finished, from a file opened before, raises %r' % (label, res))
            sddsref.check_pages(spec, res, want if want is not None else list(range(npg)), label + ', opened before, read after the producer has finished')
    return ev


def shrink(case):
    for q in case['runs']:
        if len(case['runs']) > 1:
            yield dict(case, runs=[q])
    for i, q in enumerate(case['runs']):
        if q['sel'] is not None:
            yield set_at(case, ('runs', i, 'sel'), None)
        for k, v in (('short', 0), ('between', 0), ('burst', 1), ('split', 'pages'), ('split', 'lines'), ('start', 'header'), ('rate', .9)):
            if q[k] != v:
                yield set_at(case, ('runs', i, k), v)
    for c in sddsref.shrink_spec(case):
        if sddsref.valid_spec(c['spec']):
            yield c
