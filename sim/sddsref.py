"""Independent SDDS reference: a generator of data sets, an encoder, and a normaliser of reader results.

Nothing here uses code of the repository under test except `read_all`, which only
calls its public API and normalises shapes.
"""
import struct
import numpy as np
from core import Violation, same_array, first_diff, choose

FMT = {'double': '<f8', 'float': '<f4', 'long': '<i4', 'short': '<i2'}
NP = {'double': np.float64, 'float': np.float32, 'long': np.int32, 'short': np.int16}
SPECIAL_D = [0.0, -0.0, 1.0, -1.0, 5.0, 1e-300, -1e300, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308,
             float('inf'), float('-inf'), float('nan'), 1 / 3, 0.1, 123456789.123456789, 2.0 ** 53, 2.0 ** 53 + 2, 1e22, 1e23, np.pi]
NEWLINE_D = [struct.unpack('<d', b)[0] for b in (b'\n\n\n\n\n\n\n@', b'          '[:8], b'!!!!!!!!', b'0\n0\n0\n0@', b'\r\n\r\n\r\n!?')]
EDGE = {'long': [0, 1, -1, 7, 9, 10, 2**31 - 1, -2**31, 65536, 2560, 2815, 0x0a0a0a0a, 0x20202020, 0x21212121],
        'short': [0, 1, -1, 5, 32767, -32768, 256, 10, 2570, 0x2020]}
WORDS = ['a', 'x1', 'Chicago', 'elem-07', 'Q1:F', 'kq.3', 'mark', 'B', 'drift_long_name_17', '5', '0', '7.5', 'NaN', 'z' * 9, 'z' * 10, "d'ipole"]


def values(typ, n, seed, g):
    """n deterministic values of an SDDS type."""
    r = np.random.RandomState(seed % 2**32)
    if typ == 'string':
        idx = r.randint(0, len(WORDS), n)
        if g == 'ramp':
            return ['w%d' % i for i in range(n)]
        return [WORDS[i] for i in idx]
    dt = NP[typ]
    if g == 'ramp':
        return (np.arange(n) % 30000 + (seed % 7)).astype(dt)
    if g == 'zero':
        return np.zeros(n, dt)
    if g == 'digit':
        return r.randint(0, 10, n).astype(dt)
    if g == 'newline':
        if typ in ('double', 'float'):
            return np.array(NEWLINE_D, dt if typ == 'double' else np.float64)[r.randint(0, len(NEWLINE_D), n)].astype(dt)
        e = np.array([v for v in EDGE[typ] if v in (10, 2570, 2560, 2815, 0x0a0a0a0a, 0x20202020, 0x21212121, 0x2020)])
        return e[r.randint(0, len(e), n)].astype(dt)
    if typ in ('double', 'float'):
        v = r.standard_normal(n) * 10.0 ** r.randint(-12, 13, n)
        if n:
            with np.errstate(all='ignore'):
                m = r.random_sample(n) < 0.3
                v[m] = np.array(SPECIAL_D)[r.randint(0, len(SPECIAL_D), int(m.sum()))]
                return v.astype(dt)
        return v.astype(dt)
    lo, hi = (-2**31, 2**31) if typ == 'long' else (-2**15, 2**15)
    v = r.randint(lo, hi, n)
    if n:
        m = r.random_sample(n) < 0.4
        v[m] = np.array(EDGE[typ])[r.randint(0, len(EDGE[typ]), int(m.sum()))]
    return v.astype(dt)


def scalar(typ, seed, g='mix'):
    v = values(typ, 1, seed, g)[0]
    return v if typ == 'string' else v.item()


def page_values(spec, page):
    """-> ({param: value}, {column: array or list}) of one page."""
    pv, i = {}, 0
    for k, p in enumerate(spec['params']):
        if p.get('fixed') is not None:
            continue
        pv[p['name']] = scalar(p['type'], page['s'] * 31 + k * 7 + 1, page['g'])
    cv = {c['name']: values(c['type'], page['n'], page['s'] * 131 + k * 17 + 5, page['g'])
          for k, c in enumerate(spec['cols'])}
    return pv, cv


def _entry(kind, f, style=None):
    out = ['name=%s' % f['name']]
    for k in ('symbol', 'units', 'description', 'format_string'):
        if f.get(k):
            out.append('%s="%s"' % (k, f[k].replace('\\', '\\\\').replace('"', '\\"')))
    out.append('type=%s' % f['type'])
    if f.get('fixed') is not None:
        out.append('fixed_value=%s' % (('"%s"' % f['fixed']) if f['type'] == 'string' else repr(f['fixed'])))
    if style == 'turned':
        out = out[::-1]
    elif style == 'spaced':
        out = [e.replace('=', (' = ', ' =', '= ')[k % 3], 1) for k, e in enumerate(out)]
    elif style == 'tight':
        return '&%s %s,&end\n' % (kind, ','.join(out))
    elif style == 'bare':
        return '&%s %s &end\n' % (kind, ' '.join(out))
    elif style == 'tabs':
        return '  &%s\t%s,\t&end\n' % (kind, ',\t'.join(out))
    elif style == 'noted':
        return '&%s %s,\n! a comment, type=none\n\n %s &end\n' % (kind, out[0], ', '.join(out[1:]))
    elif style == 'lines':
        return '&%s\n  %s,\n&end\n' % (kind, ',\n  '.join(out))
    return '&%s %s, &end\n' % (kind, ', '.join(out))


def header(spec):
    lay = spec.get('lay', {})
    h = ['SDDS1\n']
    if lay.get('endian', 1):
        h.append('!# little-endian\n')
    if lay.get('comment'):
        h.append('! a comment line\n')
    if lay.get('blank'):
        h.append('\n')
    if lay.get('desc'):
        h.append('&description text="generated", contents="data", &end\n')
    for p in spec['params']:
        h.append(_entry('parameter', p, lay.get('style')))
    for c in spec['cols']:
        e = _entry('column', c, lay.get('style'))
        if lay.get('split'):
            e = e.replace(', type=', ',\n type=')
        h.append(e)
    if lay.get('comment2'):
        h.append('! another comment\n')
    d = ['mode=%s' % spec['mode']]
    if spec['mode'] == 'ascii':
        if spec.get('norc'):
            d.append('no_row_counts=1')
        elif lay.get('norc0'):
            d.append('no_row_counts=0')
    if lay.get('style') == 'spaced':
        d = [e.replace('=', ' = ') for e in d]
    h.append('&data %s, &end\n' % ', '.join(d))
    h = ''.join(h)
    if lay.get('crlf'):
        h = h.replace('\n', '\r\n')
    if lay.get('latin'):
        b = h.encode('latin-1')
        # text that is also valid UTF-8 can only be taken for that
        if all(_latin_only(l) for l in b.split(b'\n')):
            return b
    return h.encode('utf-8')


def _latin_only(line):
    try:
        return line.decode('utf-8') == line.decode('latin-1')
    except UnicodeDecodeError:
        return True


def _txt(typ, v):
    if typ == 'double':
        return repr(float(v))
    if typ == 'float':
        return repr(float(v))
    if typ == 'string':
        return v
    return '%d' % v


def encode_page(spec, page, last=False):
    pv, cv = page_values(spec, page)
    par = [p for p in spec['params'] if p.get('fixed') is None]
    n = page['n']
    lay = spec.get('lay', {})
    if spec['mode'] == 'binary':
        out = [struct.pack('<i', n if spec['cols'] else page.get('rc', 0))]
        for p in par:
            v = pv[p['name']]
            if p['type'] == 'string':
                b = v.encode('latin-1')
                out.append(struct.pack('<i', len(b)) + b)
            else:
                out.append(np.array(v, FMT[p['type']]).tobytes())
        if any(c['type'] == 'string' for c in spec['cols']):
            for i in range(n):
                for c in spec['cols']:
                    v = cv[c['name']][i]
                    if c['type'] == 'string':
                        b = v.encode('latin-1')
                        out.append(struct.pack('<i', len(b)) + b)
                    else:
                        out.append(np.array(v, FMT[c['type']]).tobytes())
        elif spec['cols']:
            dt = np.dtype({'names': ['f%d' % i for i in range(len(spec['cols']))],
                           'formats': [FMT[c['type']] for c in spec['cols']]})
            a = np.zeros(n, dt)
            for i, c in enumerate(spec['cols']):
                a['f%d' % i] = cv[c['name']]
            out.append(a.tobytes())
        return b''.join(out)
    out = []
    if lay.get('pagecomment'):
        out.append('! page number\n')
    for p in par:
        out.append(_txt(p['type'], pv[p['name']]) + '\n')
    if spec['cols']:
        if not spec.get('norc'):
            out.append('%*d\n' % (lay.get('rcw', 1), n))
        sep = lay.get('sep', ' ')
        for i in range(n):
            if lay.get('rownote') and i in (0, n // 2) and not spec.get('norc'):
                out.append(lay['rownote'])
            out.append(lay.get('lead', '') + sep.join(_txt(c['type'], cv[c['name']][i]) for c in spec['cols']) +
                       lay.get('tail', '') + '\n')
        if spec.get('norc') and not (last and lay.get('nofinal')):
            out.append('\n')
    if lay.get('gap') and not spec.get('norc'):
        out.append(lay['gap'])
    return ''.join(out).replace('\n', '\r\n' if lay.get('crlf') else '\n').encode('latin-1')


def encode(spec):
    """-> (bytes, offsets) ; offsets[0] is the end of the header, offsets[i] the end of page i-1"""
    b = header(spec)
    offs = [len(b)]
    for i, pg in enumerate(spec['pages']):
        b += encode_page(spec, pg, i == len(spec['pages']) - 1)
        offs.append(len(b))
    return b, offs


# ------------------------------------------------------------------ generation
META_CH = "abcXYZ 0123456789_-+*/^()[]{}<>;:=|~?@.%$#'&"
RICH_CH = META_CH + ',,""\\\\' + '\u00b5\u00b5\u00e9'       # characters that need care


def rich_meta(r, n=12):
    s = ''.join(r.choice(RICH_CH) for _ in range(r.randint(1, n))).strip()
    for bad in ('&e', '&d', '&a', '&p', '&c', '&i'):
        s = s.replace(bad, 'xx')
    return s.lstrip('!&')


def meta(r, n=12):
    s = ''.join(r.choice(META_CH) for _ in range(r.randint(1, n))).strip()
    for bad in ('&e', '&d', '&a', '&p', '&c', '&i'):
        s = s.replace(bad, 'xx')
    return s.lstrip('!&') if not s.startswith('!') else 'm'


NAMES = ['x', 'xp', 'y', 'yp', 't', 'p', 's', 'ElementName', 'betax', 'Charge', 'pCentral', 'Step', 'a', 'b1', 'dt', 'n_0',
         "x'", 'Pass', 'particleID', 'name', 'type', 'units', 'row', 'mode', 'symbol', 'l', 'Sx', 'alpha:x', 'ex.0', '%loss',
         'description', 'row_count', 'data']


def gen_fields(r, count, types, used, rich=True):
    out = []
    for _ in range(count):
        nm = r.choice(NAMES)
        while nm in used:
            nm = r.choice(NAMES) + str(r.randint(0, 999))
        used.add(nm)
        f = {'name': nm, 'type': r.choice(types)}
        for k in ('units', 'symbol', 'description', 'format_string'):
            if r.random() < 0.3:
                m = rich_meta(r) if rich and r.random() < .4 else meta(r)
                if m:
                    f[k] = m
        out.append(f)
    return out


def gen_rows(r, big=True):
    return choose(r, [(4, r.randint(2, 12)), (2, 1), (1.2, 0), (1.5, r.randint(13, 120)),
                      (0.25 if big else 0, r.choice([2560, 2570, 2600, 2815, 2559, 2816])),
                      (0.3, r.choice([9, 10, 11, 13, 32, 33, 48, 64, 127, 128, 255, 256, 257])),
                      (0.2 if big else 0, r.choice([511, 512, 513, 1000, 1023, 1024, 1025, 1500]))])


def gen_spec(r, mode=None, strings=True, big=True, maxpages=4, cols=None, params=None, types=None, long_text=False):
    mode = mode or r.choice(['binary', 'ascii'])
    nt = types or ['double', 'long', 'short', 'float']
    ct = list(nt) + (['string'] if strings and r.random() < 0.35 else [])
    pt = list(nt) + (['string'] if strings and r.random() < 0.5 else [])
    if r.random() < 0.5:
        ct = ['double'] + (['string'] if 'string' in ct else [])
    used = set()
    ps = gen_fields(r, choose(r, [(1, 0), (3, r.randint(1, 3)), (1, r.randint(4, 7))]) if params is None else params, pt, used)
    for p in ps:
        if r.random() < 0.15:
            t = p['type']
            p['fixed'] = {'double': r.choice([0.0, 1.5, -2e-9]), 'long': r.choice([0, 3, -7]), 'short': r.choice([0, 2]), 'float': r.choice([0.0, .5, -2e-9, 1e10]),
                          'string': r.choice(WORDS[:8])}.get(t)
    ncol = choose(r, [(0.7, 0), (3, r.randint(1, 3)), (2, r.randint(4, 8)), (.1 if big else 0, r.randint(17, 70))]) if cols is None else cols
    cs = gen_fields(r, ncol, ct, used if r.random() < 0.8 else set())
    hasstr = any(c['type'] == 'string' for c in cs)
    live = any(p.get('fixed') is None for p in ps)
    if not cs and not live:
        cs = gen_fields(r, 1, nt, used)
    norc = int(mode == 'ascii' and bool(cs) and r.random() < 0.3)
    npages = choose(r, [(2, 1), (3, 2), (3, r.randint(3, max(3, maxpages)))])
    pages = []
    many = maxpages > 4 and r.random() < .04            # beyond any small threshold: pages, or columns
    if many:
        npages = r.randint(9, 40)
    equal = r.random() < 0.4
    n0 = gen_rows(r, big and not hasstr)
    if mode == 'ascii' and n0 > 600 and r.random() < 0.6:
        n0 = r.randint(0, 60)
    for i in range(npages):
        n = n0 if equal else gen_rows(r, big and not hasstr and mode == 'binary')
        if many:
            n = r.randint(0, 9)
        if norc and not live and n == 0:
            n = 1
        pages.append({'n': n if cs else 0, 's': r.randint(0, 10**6),
                      'g': choose(r, [(5, 'mix'), (1, 'ramp'), (0.5, 'zero'), (1, 'digit'), (1.2, 'newline')])})
        if not cs and mode == 'binary' and r.random() < 0.3:
            pages[-1]['rc'] = 0
    if long_text and hasstr and len(cs) < 5 and r.random() < .04:
        # pages with strings are read row by row
        pages = pages[:2]
        pages[r.randrange(len(pages))]['n'] = r.choice([500, 700, 1000, 1023, 1024, 1025, 1300, 2050])
    lay = {'endian': int(r.random() < 0.8)}
    for k, p in (('comment', 0.25), ('desc', 0.3), ('split', 0.2), ('comment2', 0.15), ('norc0', 0.2), ('nofinal', 0.5), ('blank', 0.1), ('latin', 0.3)):
        if r.random() < p:
            lay[k] = 1
    if r.random() < .4:
        lay['style'] = r.choice(['turned', 'tight', 'lines', 'spaced', 'bare', 'tabs', 'noted'])
    if mode == 'ascii':
        if r.random() < 0.3:
            lay['sep'] = r.choice(['  ', '\t', '   '])
        if r.random() < 0.3:
            lay['lead'] = r.choice([' ', '  '])
        if r.random() < 0.3:
            lay['rcw'] = r.choice([5, 20])
        if r.random() < 0.25:
            lay['pagecomment'] = 1
    if long_text and r.random() < .3:
        # further freedom of the format
        if r.random() < .4:
            lay['crlf'] = 1
        if mode == 'ascii' and r.random() < .4:
            lay['rownote'] = r.choice(['! 1.0 2.0\n', '!\n', '!next\n! 7\n'])
        if mode == 'ascii' and r.random() < .4:
            lay['tail'] = r.choice([' ', ' ! a row', '\t'])
        if mode == 'ascii' and r.random() < .4:
            lay['gap'] = r.choice(['\n', '\n\n', '! end of page\n', ' \n'])
    spec = {'mode': mode, 'norc': norc, 'params': ps, 'cols': cs, 'pages': pages, 'lay': lay}
    return spec


# ------------------------------------------------------------------ normalising the library's answer
def _text(b):
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        return b.decode('latin-1')


def _dec(v):
    if isinstance(v, bytes):
        return _text(v)
    return v


def field_list(a, name):
    a = np.atleast_1d(a)[name]
    a = np.ravel(a)
    if a.dtype.kind in 'SU':
        return [_dec(x) if not isinstance(x, np.bytes_) else _text(bytes(x)) for x in a.tolist()]
    return a


def read_all(SDDS, fn, buffer, pages=None, msl=100, spec=None):
    """Open and read through the public API -> {'params': [ {..} ], 'cols': [ {..} ], 'meta': {...}}"""
    rd = SDDS.readSDDS(fn, buffer=buffer, max_string_length=msl)
    if pages is None:
        rd.read()
    else:
        rd.read(pages)
    return dict(collect(rd, spec), meta=read_meta(rd, spec))


def collect(rd, spec):
    out = {'params': None, 'cols': None, 'meta': {}}
    live = [p['name'] for p in spec['params'] if p.get('fixed') is None]
    if live:
        pp = rd.parameters
        out['params'] = [] if pp is None else [{n: field_list(pp[i], n) for n in live} for i in range(len(pp))]
    if spec['cols']:
        cc = rd.columns
        out['cols'] = [] if cc is None else [{c['name']: field_list(cc[i], c['name']) for c in spec['cols']} for i in range(len(cc))]
    return out


def read_meta(rd, spec):
    m = {}
    for p in spec['params']:
        n = p['name']
        m['p:' + n] = [rd.parameter_type(n), rd.parameter_units(n), rd.parameter_symbol(n), rd.parameter_description(n),
                       rd.parameter_format_string(n), rd.parameter_fixed_value(n)]
    for c in spec['cols']:
        n = c['name']
        m['c:' + n] = [rd.column_type(n), rd.column_units(n), rd.column_symbol(n), rd.column_description(n), rd.column_format_string(n)]
    return m


def expected_meta(spec):
    m = {}
    for p in spec['params']:
        m['p:' + p['name']] = [p['type'], p.get('units', ''), p.get('symbol', ''), p.get('description', ''),
                               p.get('format_string', ''), p.get('fixed')]
    for c in spec['cols']:
        m['c:' + c['name']] = [c['type'], c.get('units', ''), c.get('symbol', ''), c.get('description', ''), c.get('format_string', '')]
    return m


def same_value(typ, got, want):
    """got: 1-element list/array; want: scalar"""
    if len(got) != 1:
        return False
    if typ == 'string':
        return got[0] == want
    return same_array(np.asarray(got).astype(NP[typ]) if np.asarray(got).dtype != NP[typ] else got, np.array([want], NP[typ]))


def same_column(typ, got, want):
    if typ == 'string':
        return list(got) == list(want)
    got = np.asarray(got)
    if got.dtype != NP[typ]:
        if got.dtype.kind not in 'iuf':
            return False
    return same_array(got, want)


def compare_page(spec, page, par, col, where):
    """None or a text describing the first difference between a page read and the page stored."""
    pv, cv = page_values(spec, page)
    if par is not None:
        for p in spec['params']:
            if p.get('fixed') is not None:
                continue
            if not same_value(p['type'], par[p['name']], pv[p['name']]):
                return '%s: parameter %s (%s) is %r, stored %r' % (where, p['name'], p['type'], list(par[p['name']])[:4], pv[p['name']])
    if col is not None:
        for c in spec['cols']:
            g, w = col[c['name']], cv[c['name']]
            if not same_column(c['type'], g, w):
                return '%s: column %s (%s) differs: %s' % (where, c['name'], c['type'],
                                                           first_diff(np.array(g), np.array(w)) if c['type'] != 'string' else 'got %r... (%d), stored %r... (%d)' % (list(g)[:3], len(g), w[:3], len(w)))
    return None


def check_pages(spec, res, want_pages, label):
    """Exact comparison of a complete read."""
    for part in ('params', 'cols'):
        if res[part] is not None and len(res[part]) != len(want_pages):
            raise Violation('wrong-pages', '%s: %d pages of %s returned, %d stored and selected' % (label, len(res[part]), part, len(want_pages)))
    for k, pi in enumerate(want_pages):
        d = compare_page(spec, spec['pages'][pi], res['params'][k] if res['params'] is not None else None,
                         res['cols'][k] if res['cols'] is not None else None, '%s: page %d' % (label, pi))
        if d:
            raise Violation('wrong-data', d)


def shrink_spec(case, key='spec'):
    """Candidates for a smaller file specification."""
    import json
    from core import drop_items, set_at, shrink_int
    yield from drop_items(case, (key, 'pages'))
    yield from drop_items(case, (key, 'cols'), (key, 'params'))
    sp = case[key]
    for i, p in enumerate(sp['pages']):
        yield from shrink_int(case, (key, 'pages', i, 'n'))
        if p['g'] != 'ramp':
            yield set_at(case, (key, 'pages', i, 'g'), 'ramp')
    if sp.get('lay'):
        yield set_at(case, (key, 'lay'), {})
        for k in list(sp['lay']):
            c = json.loads(json.dumps(case))
            del c[key]['lay'][k]
            yield c
    for part in ('cols', 'params'):
        for i, f in enumerate(sp[part]):
            for k in ('units', 'symbol', 'description', 'format_string'):
                if f.get(k):
                    c = json.loads(json.dumps(case))
                    del c[key][part][i][k]
                    yield c
            if f['type'] != 'double' and f.get('fixed') is None:
                yield set_at(case, (key, part, i, 'type'), 'double')


def valid_spec(sp):
    live = any(p.get('fixed') is None for p in sp['params'])
    if not sp['pages']:
        return False
    if not sp['cols'] and not live:
        return False
    if not sp['cols'] and (sp.get('norc') or any(p['n'] for p in sp['pages'])):
        return False
    if sp.get('norc') and not live and any(p['n'] == 0 for p in sp['pages']):
        return False
    return True
