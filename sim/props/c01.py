"""C01: an acknowledged SDDS save is complete on disk; a failed one is reported."""
import json
from core import *
import core, wspec


def gen_faults(r, tier):
    out = []
    k = r.random()
    if k < 0.25:
        out.append({'k': 'all_writes', 'op': 'eio'})
    if k > 0.75:
        out.append({'k': 'all_writes', 'op': 'enospc'})
    for _ in range(r.randint(2, 6)):
        t = choose(r, [(3, 'enospc'), (2, 'eio'), (2, 'close'), (1, 'open'), (1.5, 'short'), (1, 'eintr'), (1, 'mix')])
        f = {'k': t, 'at': frac(r, 6)}
        if t == 'enospc':
            f['at'] = r.choice([0.0, 1.0, frac(r, 6), frac(r, 6)])
            f['minus'] = r.choice([0, 1, 1, 2, 3, 8])
        if t == 'eio':
            f['sticky'] = r.randint(0, 1)
        if t == 'close':
            f['err'] = r.choice(['EIO', 'ENOSPC', 'EDQUOT'])
            f['lost'] = r.choice([0, 1, 7, 4096, 10**9])
        if t == 'open':
            f['err'] = r.choice(['EACCES', 'EMFILE', 'ENOSPC', 'EROFS', 'EINTR'])
        if t in ('short', 'eintr', 'mix'):
            f['s'] = r.randint(0, 10**9)
            f['p'] = r.choice([0.3, 0.7, 0.95])
            f['max'] = r.choice([1, 3, 17, 1000, 0])
        out.append(f)
    return out


def gen(r, i, tier):
    spec = wspec.gen(r)
    return {'spec': spec, 'mode': r.choice(['ascii', 'binary']), 'old': r.choice([None, 0, 10, 100000]), 'faults': gen_faults(r, tier),
            'path': r.choice(['str', 'str', 'pathlike'])}


def plan_of(f, ops):
    """Concrete fault plan for a fault descriptor, given the operation counts of the fault-free save."""
    nw, nb, nc, no = ops['write'], ops['bytes'], ops['close'], ops['open']
    k = f['k']
    if k == 'eio':
        return [{'k': 'eio', 'op': 'write', 'nth': min(nw - 1, int(f['at'] * nw)), 'sticky': f['sticky']}]
    if k == 'enospc':
        return [{'k': 'enospc', 'cap': max(0, int(round(f['at'] * nb)) - f['minus'])}]
    if k == 'close':
        return [{'k': 'close', 'nth': min(nc - 1, int(f['at'] * nc)), 'err': f['err'], 'lost': f['lost']}]
    if k == 'open':
        return [{'k': 'open', 'nth': min(no - 1, int(f['at'] * no)), 'err': f['err']}]
    if k == 'short':
        return [{'k': 'short', 's': f['s'], 'p': f['p'], 'max': f['max']}]
    if k == 'eintr':
        return [{'k': 'eintr', 's': f['s'], 'p': f['p']}]
    return [{'k': 'eintr', 's': f['s'], 'p': 0.3}, {'k': 'enospc', 'cap': max(0, int(f['at'] * nb))}, {'k': 'short', 's': f['s'] + 1, 'p': f['p'], 'max': f['max']}]


def expand(faults, ops):
    out = []
    for f in faults:
        if f['k'] == 'all_writes':
            nw = ops['write']
            step = max(1, nw // 24)
            if f['op'] == 'eio':
                out += [(f, [{'k': 'eio', 'op': 'write', 'nth': j}]) for j in range(0, nw, step)]
            else:
                nb = ops['bytes']
                st = max(1, nb // 24)
                out += [(f, [{'k': 'enospc', 'cap': c}]) for c in range(0, nb, st)]
        elif f['k'] == 'plan':
            out.append((f, f['plan']))
        else:
            out.append((f, plan_of(f, ops)))
    return out


def save(spec, mode, target):
    wspec.build(spec).save_sdds(target, mode)


def run(case):
    import pathlib
    spec, mode = case['spec'], case['mode']
    io = core.io()
    p = path('out.sdds')
    target = pathlib.Path(p) if case['path'] == 'pathlike' else p

    def prepare():
        Scratch.clean()
        if case['old'] is not None:
            put('out.sdds', b'old contents\n' * (case['old'] // 13 + 1))
    ev = []
    prepare()
    io.reset()
    st, v = attempt(lambda: save(spec, mode, target), io)
    STAT['runs'] += 1
    if st == 'raise':
        raise Violation('save-refused', 'saving a valid data set on a healthy disk raises %r' % (v,))
    d = wspec.problem(get('out.sdds'), spec, mode)
    if d:
        raise Violation('incomplete', 'after a fault-free save: ' + d)
    ops = {'write': io.count['write'], 'close': io.count['close'], 'open': io.count['open'], 'bytes': len(get('out.sdds'))}
    probe('writes_per_save_%s' % ('1' if ops['write'] == 1 else '2-9' if ops['write'] < 10 else '10+'))
    for f, plan in expand(case['faults'], ops):
        prepare()
        w = wspec.build(spec)
        io.reset(plan)
        st, v = attempt(lambda: w.save_sdds(target, mode), io)
        STAT['runs'] += 1
        note_io(io)
        n_fired = sum(io.fired.values())
        state(mode, spec['n'] > 0, len(spec['cols']), sorted(io.fired), ops['write'], st, [e[0] + ('!' if e[4] < e[2] and e[0] == 'write' or e[4] < 0 else '') for e in io.log][:60])
        if st == 'ok':
            d = wspec.problem(get('out.sdds'), spec, mode)
            if d:
                raise Violation('silent-loss', 'the save returned normally under %s but %s' % (plan, d), fault=f['k'])
            probe('faulty_save_complete')
        else:
            probe('faulty_save_raised')
            if not n_fired:
                raise Violation('spurious', 'the save raised %r although no fault was injected' % (v,))
            if isinstance(v, SystemExit):
                raise Violation('exit', 'the save exits the interpreter under %s' % plan)
        # the object stays usable on a healthy disk
        io.reset()
        st2, v2 = attempt(lambda: w.save_sdds(target, mode), io)
        STAT['runs'] += 1
        d = repr(v2) if st2 == 'raise' else wspec.problem(get('out.sdds'), spec, mode)
        if d:
            raise Violation('retry', 'a later save of the same object on a healthy disk fails after %s: %s' % (plan, d))
        if len(ev) < 2:
            # ... in either data mode
            other = 'binary' if mode == 'ascii' else 'ascii'
            st2, v2 = attempt(lambda: w.save_sdds(target, other), io)
            STAT['runs'] += 1
            d = repr(v2) if st2 == 'raise' else wspec.problem(get('out.sdds'), spec, other)
            if d:
                raise Violation('other-mode', 'a later %s save of the same object, after a save as %s, fails: %s' % (other, mode, d))
        ev.append([plan if f['k'] != 'all_writes' else len(ev), st, n_fired])
    return [ops, ev, digest(get('out.sdds').hex())]


def shrink(case):
    fs = case['faults']
    for f in fs:
        if len(fs) > 1:
            yield set_at(case, ('faults',), [f])
    if len(fs) == 1:
        f = fs[0]
        if f['k'] == 'all_writes':
            for j in range(40):
                yield set_at(case, ('faults',), [{'k': 'plan', 'plan': [{'k': 'eio', 'op': 'write', 'nth': j}] if f['op'] == 'eio' else [{'k': 'enospc', 'cap': j * 37}]}])
        if f['k'] == 'mix':
            for a in (0.0, f['at']):
                yield set_at(case, ('faults',), [{'k': 'enospc', 'at': a, 'minus': 0}])
        if 'at' in f:
            for a in (0.0, 0.5):
                if f['at'] > a:
                    yield set_at(case, ('faults', 0, 'at'), a)
    yield set_at(case, ('faults',), [])
    yield from wspec.shrink(case, 'spec')
    if case['old'] is not None:
        yield set_at(case, ('old',), None)
    if case['path'] != 'str':
        yield set_at(case, ('path',), 'str')
