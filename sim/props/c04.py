"""C04: multi-page SDDS reading is independent of strategy, page choice and chunking."""
from core import *
import core, sddsref


def gen_sel(r, np_):
    k = r.random()
    if k < .3:
        return None
    kind = r.choice(['list', 'list', 'tuple', 'set', 'array', 'range', 'reversed'])
    return {'kind': kind, 'pages': [p for p in range(np_) if r.random() < .5] or [r.randrange(np_)]}


def sel_arg(sel):
    if sel is None:
        return None
    import numpy as np
    p = sel['pages']
    return {'list': lambda: list(p), 'tuple': lambda: tuple(p), 'set': lambda: set(p), 'array': lambda: np.array(p),
            'range': lambda: range(min(p), max(p) + 1), 'reversed': lambda: list(p)[::-1]}[sel['kind']]()


def sel_pages(sel, np_):
    if sel is None:
        return list(range(np_))
    p = sel['pages']
    if sel['kind'] == 'range':
        p = range(min(p), max(p) + 1)
    return [k for k in sorted(set(p)) if k < np_]


def gen(r, i, tier):
    spec = sddsref.gen_spec(r, maxpages=6, long_text=True)
    reads = []
    for buf in (1, 0):
        reads.append({'buf': buf, 'sel': None, 'plan': []})
    for _ in range(r.randint(2, 5)):
        plan = []
        if r.random() < .6:
            plan.append({'k': 'short', 's': r.randint(0, 10**9), 'p': r.choice([.2, .7, .97]), 'max': r.choice([1, 3, 10, 100, 0])})
        if r.random() < .3:
            plan.append({'k': 'eintr', 's': r.randint(0, 10**9), 'p': .3})
        reads.append({'buf': r.randint(0, 1), 'sel': gen_sel(r, len(spec['pages'])), 'plan': plan})
    return {'spec': spec, 'reads': reads}


def run(case):
    from rsbeams.rsdata import SDDS
    io = core.io()
    spec = case['spec']
    if not sddsref.valid_spec(spec):
        return 'invalid'
    b, offs = sddsref.encode(spec)
    p = put('f.sdds', b)
    ev = [len(b)]
    for rd in case['reads']:
        sel = rd['sel']
        if sel is not None:
            sel = dict(sel, pages=[k for k in sel['pages'] if k < len(spec['pages'])])
            if not sel['pages']:
                continue
        io.reset(rd['plan'])
        arg = sel_arg(sel)
        st, res = attempt(lambda: sddsref.read_all(SDDS, p, bool(rd['buf']), arg, spec=spec), io)
        STAT['runs'] += 1
        note_io(io)
        label = '%s%s %s pages=%r' % (spec['mode'], ' without row counts' if spec['norc'] else '', 'buffered' if rd['buf'] else 'unbuffered', arg)
        if st == 'raise':
            raise Violation('read-raises', '%s: reading a well-formed file raises %r' % (label, res), buf=rd['buf'])
        sddsref.check_pages(spec, res, sel_pages(sel, len(spec['pages'])), label)
        got, want = res['meta'], sddsref.expected_meta(spec)
        for n in want:
            if got[n] != want[n]:
                raise Violation('metadata', '%s: type, units, symbol, description, format or fixed value of %s are %r, the header says %r' % (label, n, got[n], want[n]))
        ev.append([rd['buf'], len(io.log), dict(io.fired)])
        state(spec['mode'], spec['norc'], rd['buf'], [c['type'] for c in spec['cols']], [q['type'] for q in spec['params']],
              [min(g['n'], 3) for g in spec['pages']], sel_pages(sel, 99) if sel else None, sorted(io.fired))
        if len(set(g['n'] for g in spec['pages'])) > 1:
            probe('unequal_pages')
        if any(g['n'] == 0 for g in spec['pages']):
            probe('empty_page')
    return ev


def shrink(case):
    yield from drop_items(case, ('reads',))
    for i, rd in enumerate(case['reads']):
        if rd['plan']:
            yield set_at(case, ('reads', i, 'plan'), [])
        if rd['sel'] is not None:
            yield set_at(case, ('reads', i, 'sel'), None)
            if rd['sel']['kind'] != 'list':
                yield set_at(case, ('reads', i, 'sel', 'kind'), 'list')
            yield from drop_items(case, ('reads', i, 'sel', 'pages'))
    for c in sddsref.shrink_spec(case):
        if sddsref.valid_spec(c['spec']):
            yield c
