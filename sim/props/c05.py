"""C05: a torn or unreadable SDDS file never hangs the reader or yields invented data."""
import json
from core import *
import core, sddsref, torn
from props.c04 import gen_sel, sel_arg, sel_pages


def gen(r, i, tier):
    spec = sddsref.gen_spec(r, big=r.random() < .15, maxpages=4)
    if spec['mode'] == 'ascii' or r.random() < .9:
        for p in spec['pages']:
            if p['n'] > 150:
                p['n'] = r.randint(1, 40)
    np_ = len(spec['pages'])
    cuts = []
    for _ in range(r.randint(10, 18)):
        k = r.random()
        if k < .35:
            cuts.append({'a': r.randint(0, np_), 'd': choose(r, [(3, -r.randint(1, 12)), (2, r.randint(0, 12)), (1, -1)])})
        elif k < .45:
            cuts.append({'f': frac(r, 6), 'h': 1})          # inside the header
        else:
            cuts.append({'f': frac(r, 6)})
    if r.random() < (.12 if tier == 'quick' else .3):
        cuts.append({'all': r.choice([40, 80]), 'from': frac(r, 4)})
    reads = []
    for c in cuts:
        c['buf'] = r.randint(0, 1)
        c['sel'] = gen_sel(r, np_) if r.random() < .3 else None
        c['plan'] = [{'k': 'short', 's': r.randint(0, 10**9), 'p': .5, 'max': r.choice([1, 7, 0])}] if r.random() < .15 else []
    errs = [{'f': frac(r, 6), 'buf': r.randint(0, 1), 'sel': gen_sel(r, np_) if r.random() < .3 else None,
             'sticky': r.randint(0, 1), 'short': r.choice([0, 0, 8, 60])} for _ in range(r.randint(2, 6))]
    return {'spec': spec, 'cuts': cuts, 'errs': errs}


def positions(c, offs, size):
    if 'at' in c:
        return [min(c['at'], size)]
    if 'a' in c:
        return [max(0, min(size, offs[min(c['a'], len(offs) - 1)] + c['d']))]
    if 'all' in c:
        s = int(c['from'] * size)
        return list(range(s, min(size, s + c['all']) + 1))
    if c.get('h'):
        return [int(c['f'] * offs[0])]
    return [offs[0] + int(c['f'] * (size - offs[0]))]


def trim(sel, n):
    if sel is None:
        return None
    sel = dict(sel, pages=[k for k in sel['pages'] if k < n])
    return sel if sel['pages'] else None


def run(case):
    from rsbeams.rsdata import SDDS
    io = core.io()
    spec = case['spec']
    if not sddsref.valid_spec(spec):
        return 'invalid'
    b, offs = sddsref.encode(spec)
    npg = len(spec['pages'])
    ev = [len(b)]
    for c in case['cuts']:
        sel = trim(c['sel'], npg)
        arg, want = sel_arg(sel), None if sel is None else sel_pages(sel, npg)
        for cut in positions(c, offs, len(b)):
            p = put('f.sdds', b[:cut])
            io.reset(c['plan'], max_ops=20000 + 4 * len(b))
            st, res = attempt(lambda: sddsref.read_all(SDDS, p, bool(c['buf']), arg, spec=spec), io, budget=400_000)
            STAT['runs'] += 1
            note_io(io)
            fired('torn_header' if cut < offs[0] else 'torn_between_pages' if cut in offs else 'torn_inside_page')
            region = 'h' if cut < offs[0] else len([o for o in offs if o <= cut])
            state(spec['mode'], spec['norc'], c['buf'], [x['type'] for x in spec['cols']], [x['type'] for x in spec['params']], region, cut in offs, st)
            label = '%s%s %s, first %d of %d bytes, pages=%r' % (spec['mode'], ' without row counts' if spec['norc'] else '',
                                                                 'buffered' if c['buf'] else 'unbuffered', cut, len(b), arg)
            if st == 'ok':
                torn.check(spec, b, offs, cut, want, res, label)
                probe('torn_read_returned')
            else:
                if cut == len(b):
                    raise Violation('read-raises', '%s: reading the whole file raises %r' % (label, res))
                probe('torn_read_raised')
            ev.append([cut, c['buf'], st])
    p = put('f.sdds', b)
    for e in case['errs']:
        sel = trim(e['sel'], npg)
        arg, want = sel_arg(sel), list(range(npg)) if sel is None else sel_pages(sel, npg)
        short = [{'k': 'short', 's': 5, 'p': 1.0, 'max': e['short']}] if e['short'] else []
        io.reset(short)
        st, res = attempt(lambda: sddsref.read_all(SDDS, p, bool(e['buf']), arg, spec=spec), io)
        if st == 'raise':
            raise Violation('read-raises', 'reading a whole file raises %r' % res)
        nr = io.count['read']
        nth = e.get('nth', int(e['f'] * nr))
        io.reset([{'k': 'eio', 'op': 'read', 'nth': nth, 'sticky': e['sticky']}] + short)
        st, res = attempt(lambda: sddsref.read_all(SDDS, p, bool(e['buf']), arg, spec=spec), io)
        STAT['runs'] += 1
        note_io(io)
        label = '%s%s %s pages=%r, read operation %d of %d fails' % (spec['mode'], ' without row counts' if spec['norc'] else '',
                                                                      'buffered' if e['buf'] else 'unbuffered', arg, nth, nr)
        state('eio', spec['mode'], e['buf'], min(nth, 20), nr > 20, st, e['sticky'])
        if st == 'ok':
            sddsref.check_pages(spec, res, want, label)
        ev.append([nth, nr, st])
    return ev


def shrink(case):
    if len(case['cuts']) + len(case['errs']) > 1:
        for c in case['cuts']:
            yield dict(case, cuts=[c], errs=[])
        for e in case['errs']:
            yield dict(case, cuts=[], errs=[e])
    b, offs = sddsref.encode(case['spec'])
    for i, c in enumerate(case['cuts']):
        if c['plan']:
            yield set_at(case, ('cuts', i, 'plan'), [])
        if c['sel'] is not None:
            yield set_at(case, ('cuts', i, 'sel'), None)
        if 'all' in c:
            for at in positions(c, offs, len(b)):
                yield set_at(case, ('cuts', i), {'at': at, 'buf': c['buf'], 'sel': c['sel'], 'plan': c['plan']})
    for i, e in enumerate(case['errs']):
        if e['sel'] is not None:
            yield set_at(case, ('errs', i, 'sel'), None)
        if e['short']:
            yield set_at(case, ('errs', i, 'short'), 0)
        if e['sticky']:
            yield set_at(case, ('errs', i, 'sticky'), 0)
    for c in sddsref.shrink_spec(case):
        if sddsref.valid_spec(c['spec']):
            yield c
            # the same violation may need the cut moved along
            if len(c['cuts']) == 1 and not c['errs']:
                b2, o2 = sddsref.encode(c['spec'])
                if len(b2) < 400:
                    yield dict(c, cuts=[{'all': len(b2), 'from': 0.0, 'buf': c['cuts'][0]['buf'], 'sel': c['cuts'][0]['sel'], 'plan': []}])
