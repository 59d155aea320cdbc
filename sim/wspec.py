"""Data sets handed to the SDDS writer: generator, builder, independent decoder and comparison."""
import struct
import numpy as np
from core import Violation, same_array, choose, drop_items, set_at, shrink_int
import sddsref

CONT = ['plain', 'list', 'strided', 'big', 'fortran', 'readonly', 'f4', 'i8', 'tuple', 'sub', 'col2d']
TEXT = "abcXYZ 0123456789_-+*/^()[]{}<>;:=|~?@.%$#'"
STRING = TEXT + ',"\\&\u00b5\u03b2'       # characters that need care


def gen_text(r):
    s = ''.join(r.choice(STRING if r.random() < .3 else TEXT) for _ in range(r.randint(1, 30))).strip()
    return s or 't'


def gen(r, big=True, maxcols=6):
    used = set()
    npar = choose(r, [(1, 0), (3, r.randint(1, 3)), (1, r.randint(4, 6))])
    ncol = choose(r, [(0.6, 0), (2, 1), (4, r.randint(2, maxcols))])
    ps = sddsref.gen_fields(r, npar, ['double', 'double', 'long', 'short', 'string'], used)
    for p in ps:
        p['v'] = r.randint(0, 10**6)
        p['c'] = r.choice(['py', 'np', '0d', '1d', 'f4', 'i8'])
        p['g'] = r.choice(['mix', 'mix', 'digit', 'zero'])
        if p['type'] == 'string':
            p['text'] = gen_text(r)
        if r.random() < 0.2:
            p['fixed'] = {'double': r.choice([0.0, 1.5, -2e-9, 1e300, 3.0]), 'long': r.choice([0, 3, -7, 2**31 - 1]),
                          'short': r.choice([0, 2, -32768]), 'string': r.choice(['Abc', 'two words', 'x-1', "it's", 'a "b"', 'm,', 'c\\\\d\\', 'k=\u00b5', 'a, b=c'])}[p['type']]
    types = r.choice([['double'], ['double', 'long', 'short'], ['double', 'long', 'short'], ['long'], ['short'], ['short', 'long']])
    cs = sddsref.gen_fields(r, ncol, types, used if r.random() < .8 else set())
    for c in cs:
        c['v'] = r.randint(0, 10**6)
        c['g'] = choose(r, [(5, 'mix'), (1, 'ramp'), (1, 'zero'), (1, 'digit'), (1, 'newline')])
        c['c'] = r.choice(CONT) if r.random() < .6 else 'plain'
    n = choose(r, [(1.2, 0), (1.5, 1), (5, r.randint(2, 30)), (2, r.randint(31, 400)), (0.7 if big else 0, r.randint(401, 3000)),
                   (0.4 if big else 0, r.choice([127, 128, 255, 256, 512, 1023, 1024, 1025, 2560, 2570, 2815, 4096]))])
    if big and r.random() < .05:
        if r.random() < .5 and len(cs) <= 3:
            n = r.randint(5000, 20000)                     # more rows than any buffer or portion holds
        else:                                              # a header of many kilobytes
            cs = [dict(c, c='plain') for c in cs] + [
                {'name': 'extra%d' % k, 'type': r.choice(types), 'v': r.randint(0, 10**6), 'g': 'mix', 'c': 'plain',
                 'description': 'd' * r.choice([1, 80, 500, 3000])} for k in range(r.randint(3, 60))]
            n = min(n, 60)
    return {'params': ps, 'cols': cs, 'n': n}


def col_values(c, n):
    """(object handed to the writer, stored values)"""
    v = sddsref.values(c['type'], n, c['v'], c['g'])
    k = c['c']
    if k == 'f4' and c['type'] == 'double':
        with np.errstate(all='ignore'):
            a = v.astype(np.float32)
        return a, a.astype(np.float64)
    if k == 'i8':
        if c['type'] == 'double':
            a = np.random.RandomState(c['v'] % 2**32).randint(-10**9, 10**9, n)
            return a, a.astype(np.float64)
        return v.astype(np.int64), v
    if k == 'list':
        return v.tolist(), v
    if k == 'tuple':
        return tuple(v.tolist()), v
    if k == 'strided':
        b = np.full(2 * n + 1, 77, v.dtype)
        b[1::2] = v
        return b[1::2], v
    if k == 'big':
        return v.astype(v.dtype.newbyteorder('>')), v
    if k == 'fortran':
        b = np.full((n, 3), 55, v.dtype, order='F')
        b[:, 1] = v
        return b[:, 1], v
    if k == 'readonly':
        b = v.copy()
        b.flags.writeable = False
        return b, v
    if k == 'sub':
        return v.view(np.recarray) if n else v, v
    if k == 'col2d':
        b = np.full((n, 2), 44, v.dtype)
        b[:, 0] = v
        return b[:, 0], v
    return v, v


def par_value(p):
    """(object handed to the writer, stored value)"""
    if p.get('fixed') is not None:
        return None, p['fixed']
    if p['type'] == 'string':
        return p['text'], p['text']
    v = sddsref.values(p['type'], 1, p['v'], p['g'])[0]
    k = p['c']
    if k == 'f4' and p['type'] == 'double':
        with np.errstate(all='ignore'):
            a = np.float32(v)
        return a, float(a)
    if k == 'i8' and p['type'] == 'double':
        a = int(p['v'])
        return a, float(a)
    if k == 'np':
        return v, v.item()
    if k == '0d':
        return np.array(v), v.item()
    if k == '1d':
        return np.array([v]), v.item()
    return v.item(), v.item()


def build(spec, writer=None):
    from rsbeams.rsdata.SDDS import writeSDDS
    w = writer or writeSDDS()
    for p in spec['params']:
        a, _ = par_value(p)
        w.create_parameter(p['name'], a, p['type'], parUnits=p.get('units', ''), parSymbol=p.get('symbol', ''),
                           parFormatStr=p.get('format_string', ''), parDescription=p.get('description', ''), parFixedVal=p.get('fixed'))
    for c in spec['cols']:
        a, _ = col_values(c, spec['n'])
        w.create_column(c['name'], a, c['type'], colUnits=c.get('units', ''), colSymbol=c.get('symbol', ''),
                        colFormatStr=c.get('format_string', ''), colDescription=c.get('description', ''))
    return w


# ---------------------------------------------------------------- independent decoder
class Bad(Exception):
    pass


def _split(text):
    """Fields of one namelist: [(key, value)]"""
    out, i, n = [], 0, len(text)
    while i < n:
        while i < n and text[i] in ' ,\t\n':
            i += 1
        if i >= n:
            break
        j = text.find('=', i)
        if j < 0:
            raise Bad('header entry without value: %r' % text[i:i + 30])
        key = text[i:j].strip()
        i = j + 1
        if i < n and text[i] == '"':
            j, v = i + 1, ''
            while j < n and text[j] != '"':
                if text[j] == '\\' and j + 1 < n and text[j + 1] in '"\\':
                    j += 1
                v += text[j]
                j += 1
            if j >= n:
                raise Bad('unterminated quote in the header')
            out.append((key, v))
            i = j + 1
        else:
            j = i
            while j < n and text[j] not in ', \t\n':
                j += 1
            out.append((key, text[i:j]))
            i = j
    return out


def decode(b):
    """-> dict(params=[fields], cols=[fields], mode, n, pvals=[...], table=[arrays]) of a single-page file"""
    pos = 0

    def line():
        nonlocal pos
        j = b.find(b'\n', pos)
        if j < 0:
            raise Bad('file ends inside of a line at %d' % pos)
        s = b[pos:j].decode('utf-8')
        pos = j + 1
        return s
    if not line().startswith('SDDS'):
        raise Bad('no SDDS identification')
    params, cols, mode, norc = [], [], None, False
    while mode is None:
        s = line()
        if s.startswith('!') or not s.strip():
            continue
        if '&end' not in s:
            while '&end' not in s:
                s += '\n' + line()
        body = s[:s.rindex('&end')]
        kind, _, rest = body.strip().partition(' ')
        f = _split(rest)
        if len(set(k for k, _ in f)) != len(f):
            raise Bad('duplicate header field')
        f = dict(f)
        if kind == '&parameter':
            params.append(f)
        elif kind == '&column':
            cols.append(f)
        elif kind == '&data':
            mode = f.get('mode', 'binary')
            norc = bool(int(f.get('no_row_counts', 0)))
        elif kind != '&description':
            raise Bad('unknown header entry %r' % kind)
    live = [p for p in params if 'fixed_value' not in p]
    pv, n = [], 0

    def take(k):
        nonlocal pos
        if pos + k > len(b):
            raise Bad('file ends at %d, %d bytes needed at %d' % (len(b), k, pos))
        s = b[pos:pos + k]
        pos += k
        return s
    if mode == 'binary':
        n = struct.unpack('<i', take(4))[0]
        if n < 0 or n > 10**7:
            raise Bad('row count %d' % n)
        for p in live:
            if p['type'] == 'string':
                k = struct.unpack('<i', take(4))[0]
                if k < 0 or k > 10**6:
                    raise Bad('string length %d' % k)
                pv.append(take(k).decode('utf-8'))
            else:
                pv.append(np.frombuffer(take(np.dtype(sddsref.FMT[p['type']]).itemsize), sddsref.FMT[p['type']])[0].item())
        table = []
        if cols:
            dt = np.dtype({'names': ['c%d' % i for i in range(len(cols))], 'formats': [sddsref.FMT[c['type']] for c in cols]})
            a = np.frombuffer(take(n * dt.itemsize), dt)
            table = [a['c%d' % i] for i in range(len(cols))]
    elif mode == 'ascii':
        for p in live:
            s = line()
            pv.append(s if p['type'] == 'string' else float(s) if p['type'] == 'double' else int(s))
        table = []
        if cols:
            if norc:
                raise Bad('no row count')
            n = int(line())
            rows = []
            for _ in range(n):
                t = line().split()
                if len(t) != len(cols):
                    raise Bad('%d entries in a row of %d columns' % (len(t), len(cols)))
                rows.append(t)
            for i, c in enumerate(cols):
                cv = float if c['type'] == 'double' else int
                table.append(np.array([cv(r[i]) for r in rows], sddsref.NP[c['type']]))
    else:
        raise Bad('mode %r' % mode)
    if b[pos:].strip():
        raise Bad('%d bytes follow the data' % (len(b) - pos))
    if mode == 'binary' and pos != len(b):
        raise Bad('%d bytes follow the data' % (len(b) - pos))
    return {'params': params, 'cols': cols, 'mode': mode, 'n': n, 'pv': pv, 'table': table}


def problem(b, spec, mode):
    """None, or what is wrong with the stored bytes of this data set."""
    if b is None:
        return 'the file does not exist'
    try:
        d = decode(b)
    except (Bad, ValueError, KeyError, OverflowError, UnicodeDecodeError) as e:
        return 'the file is not a complete SDDS file (%s)' % e
    if d['mode'] != mode:
        return 'data mode is %r, requested %r' % (d['mode'], mode)
    for part, own in (('params', spec['params']), ('cols', spec['cols'])):
        got = d[part]
        if [f.get('name') for f in got] != [f['name'] for f in own]:
            return '%s in the header are %r, expected %r' % (part, [f.get('name') for f in got], [f['name'] for f in own])
        for f, g in zip(own, got):
            for k in ('type', 'units', 'symbol', 'description', 'format_string'):
                if g.get(k, '') != f.get(k, ''):
                    return '%s of %s is %r in the header, expected %r' % (k, f['name'], g.get(k), f.get(k))
            if part == 'params':
                fx = g.get('fixed_value')
                if (fx is None) != (f.get('fixed') is None):
                    return 'fixed value of %s is %r in the header, expected %r' % (f['name'], fx, f.get('fixed'))
                if fx is not None:
                    t = f['type']
                    v = float(fx) if t == 'double' else fx if t == 'string' else int(fx)
                    if v != f['fixed']:
                        return 'fixed value of %s is %r in the header, expected %r' % (f['name'], fx, f['fixed'])
    live = [p for p in spec['params'] if p.get('fixed') is None]
    if len(d['pv']) != len(live):
        return '%d parameter values, expected %d' % (len(d['pv']), len(live))
    for p, g in zip(live, d['pv']):
        w = par_value(p)[1]
        if (g != w) if p['type'] == 'string' else not same_array(np.array(g, float), np.array(w, float)):
            return 'value of parameter %s is %r, handed in %r' % (p['name'], g, w)
    if spec['cols']:
        if d['n'] != spec['n']:
            return '%d rows, expected %d' % (d['n'], spec['n'])
        for c, g in zip(spec['cols'], d['table']):
            w = col_values(c, spec['n'])[1]
            if not same_array(g, w):
                return 'values of column %s differ from those handed in' % c['name']
    elif d['n']:
        return 'row count %d without columns' % d['n']
    return None


def shrink(case, key):
    import json
    yield from drop_items(case, (key, 'cols'), (key, 'params'))
    yield from shrink_int(case, (key, 'n'))
    sp = case[key]
    for part in ('cols', 'params'):
        for i, f in enumerate(sp[part]):
            for k in ('units', 'symbol', 'description', 'format_string', 'fixed'):
                if f.get(k) is not None:
                    c = json.loads(json.dumps(case))
                    del c[key][part][i][k]
                    if k == 'fixed' and f['type'] == 'string':
                        c[key][part][i].setdefault('text', 'a')
                    yield c
            if f.get('c') not in (None, 'plain', 'py'):
                yield set_at(case, (key, part, i, 'c'), 'plain' if part == 'cols' else 'py')
            if f.get('g') not in (None, 'ramp'):
                yield set_at(case, (key, part, i, 'g'), 'ramp')
