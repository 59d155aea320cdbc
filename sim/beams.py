"""Particle files and independent decoders for the particle exchange checks."""
import os, struct
import numpy as np
import sddsref, wspec
from core import same_array

C_LIGHT = 299792458.0
NAMES6 = ['x', 'px', 'y', 'py', 'z', 'pz']


def coords(n, seed, kind='mix'):
    """n x 6 finite coordinates; last column (total momentum) is positive."""
    r = np.random.RandomState(seed % 2**32)
    if kind == 'ramp':
        a = (np.arange(n * 6, dtype=float).reshape(n, 6) + 1) / 7
    elif kind == 'mix':
        a = r.standard_normal((n, 6)) * 10.0 ** r.randint(-14, 6, (n, 6))
    elif kind == 'wide':
        a = r.standard_normal((n, 6)) * 10.0 ** r.randint(-120, 120, (n, 6))
    elif kind == 'const':
        a = np.full((n, 6), 1 / 3)
    else:
        a = r.standard_normal((n, 6)) * np.array([1e-4, 1e-3, 1e-4, 1e-3, 1e-3, 1]) + np.array([0, 0, 0, 0, 0, 20.0])
    if kind == 'tails':                # a few particles far from the others
        for k in r.randint(0, n, 1 + n // 400):
            a[k, r.randint(0, 6)] *= 10.0 ** r.randint(1, 5)
    if kind == 'wide':
        a[:, 5] = np.abs(a[:, 5])
        a[:, 5] = 10.0 ** r.uniform(-3, 6, n)
    else:
        a[:, 5] = np.abs(a[:, 5]) + 1e-3
    return a


def elegant_bytes(f):
    """f: dict(n, s, kind, mode, charge (None or float), extra, order)"""
    c = coords(f['n'], f['s'], f['kind'])
    names = ['x', 'xp', 'y', 'yp', 't', 'p']
    cols = {'x': c[:, 0], 'xp': c[:, 1], 'y': c[:, 2], 'yp': c[:, 3], 't': c[:, 4], 'p': c[:, 5]}
    types = {k: 'double' for k in names}
    order = list(names)
    if f.get('extra'):
        cols['dt'] = np.arange(f['n']) * 0.5
        types['dt'] = 'double'
        cols['particleID'] = np.arange(f['n'], dtype=np.int32) + 1
        types['particleID'] = 'long'
        order += ['dt', 'particleID']
    for k in f.get('low', ()):
        cols[k] = cols[k].astype(np.float32)
        types[k] = 'float'
    if f.get('order'):
        np.random.RandomState(f['order']).shuffle(order)
    h = 'SDDS1\n!# little-endian\n&description text="phase space", contents="phase space", &end\n'
    pars = []
    if f.get('extra'):
        pars.append(('Step', 'long', 3))
    if f.get('charge') is not None:
        pars.append(('Charge', 'double', f['charge']))
    if f.get('extra'):
        pars.append(('pCentral', 'double', 12.5))
    for k, t in enumerate(f.get('text', ())):
        # elegant names the element before the watch point and the version of the program
        pars.insert(min(k, len(pars)), (('PreviousElementName', 'SVNVersion')[k], 'string', t))
    for nm, t, _ in pars:
        h += '&parameter name=%s, type=%s, &end\n' % (nm, t)
    for nm in order:
        h += '&column name=%s, type=%s, &end\n' % (nm, types[nm])
    h += '&data mode=%s, &end\n' % f['mode']
    out = [h.encode()]
    if f['mode'] == 'binary':
        out.append(struct.pack('<i', f['n']))
        for _, t, v in pars:
            out.append(struct.pack('<i', len(v)) + v.encode() if t == 'string' else np.array(v, sddsref.FMT[t]).tobytes())
        dt = np.dtype({'names': order, 'formats': [sddsref.FMT[types[k]] for k in order]})
        a = np.zeros(f['n'], dt)
        for k in order:
            a[k] = cols[k]
        out.append(a.tobytes())
    else:
        for _, t, v in pars:
            out.append((v if t == 'string' else repr(float(v)) if t == 'double' else '%d' % v).encode() + b'\n')
        out.append(b'%d\n' % f['n'])
        for i in range(f['n']):
            out.append(' '.join(repr(float(cols[k][i])) if types[k] != 'long' else '%d' % cols[k][i] for k in order).encode() + b'\n')
    return b''.join(out)


def elegant_expected(f):
    c = coords(f['n'], f['s'], f['kind']).copy()
    for i, k in enumerate(('x', 'xp', 'y', 'yp', 't', 'p')):
        if k in f.get('low', ()):
            c[:, i] = c[:, i].astype(np.float32)
    e = c.copy()
    e[:, 1] = c[:, 1] * c[:, 5]
    e[:, 3] = c[:, 3] * c[:, 5]
    e[:, 4] = c[:, 4] * C_LIGHT
    return e, 0.0 if f.get('charge') is None else f['charge']


def opal_write(path, f):
    """f: dict(steps=[[number, n, s]], kind, charge_attr, charge)"""
    import h5py
    with h5py.File(path, 'w', track_order=False) as h:
        h.attrs['OPAL_version'] = b'OPAL 2.0'
        for num, n, s in f['steps']:
            g = h.create_group('Step#%d' % num)
            c = coords(n, s, f['kind'])
            for i, k in enumerate(NAMES6):
                g.create_dataset(k, data=c[:, i].astype(f.get('dt', {}).get(k, '<f8')), **({'chunks': True, 'compression': 'gzip'} if f.get('packed') and n else {}))
            g.create_dataset('id', data=np.arange(n))
            q = f['charge'] * (num + 1)
            g.attrs[f['charge_attr']] = q if f.get('bare') else np.array([q])
            g.attrs['TIME'] = np.array([1e-9 * num])
        if f.get('attach'):
            a = h.create_group('Attachment')
            a.create_dataset('input.in', data=np.arange(20, dtype=np.int8))


def opal_expected(f, step):
    if step is None:
        step = max(s[0] for s in f['steps'])
    for num, n, s in f['steps']:
        if num == step:
            c = coords(n, s, f['kind']).copy()
            for i, k in enumerate(NAMES6):
                c[:, i] = c[:, i].astype(f.get('dt', {}).get(k, '<f8'))
            return c, f['charge'] * (num + 1)
    return None, None


def close(a, b, rtol=4e-15):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((a == b) | (np.abs(a - b) <= rtol * np.abs(b)) | (np.abs(a - b) < 1e-305)))


# ---------------------------------------------------------------- independent decoders of exports
def scalar_text(v):
    return float(v)


def check_export(fmt, b, c, charge, kw=None):
    """None or what is wrong with exported bytes of coordinates c."""
    if b is None:
        return 'the file does not exist'
    n = len(c)
    kw = kw or {}
    try:
        if fmt == 'elegant':
            d = wspec.decode(b)
            units = {'x': 'm', 'xp': '', 'y': 'm', 'yp': '', 't': 's', 'p': 'm$be$nc'}
            if [f['name'] for f in d['cols']] != list(units):
                return 'columns are %s' % [f['name'] for f in d['cols']]
            if [f.get('units', '') for f in d['cols']] != list(units.values()):
                return 'units are %s' % [f.get('units', '') for f in d['cols']]
            pp = {p['name']: v for p, v in zip([p for p in d['params'] if 'fixed_value' not in p], d['pv'])}
            pp.update({p['name']: float(p['fixed_value']) for p in d['params'] if 'fixed_value' in p})
            if 'Charge' not in pp or not same_array(np.array(pp['Charge'], float), np.array(charge, float)):
                return 'charge is %r, the species has %r' % (pp.get('Charge'), charge)
            if d['n'] != n:
                return '%d particles, the species has %d' % (d['n'], n)
            t = d['table']
            back = np.array([t[0], t[1] * t[5], t[2], t[3] * t[5], t[4] * C_LIGHT, t[5]], float).T.reshape(n, 6)
        elif fmt == 'opal':
            if not b.endswith(b'\n'):
                return 'the last line is not complete'
            lines = b.decode('ascii').split('\n')[:-1]
            if int(lines[0]) != n:
                return 'particle count is %s, the species has %d' % (lines[0], n)
            rows = [[float(x) for x in l.split()] for l in lines[1:]]
            if len(rows) != n or any(len(r) != 6 for r in rows):
                return '%d lines of coordinates, the species has %d particles' % (len(rows), n)
            back = np.array(rows, float).reshape(n, 6)
            return None if same_array(back, c) else 'coordinates differ: row %d' % int(np.argmax(np.any(back != c, axis=1)))
        else:
            if not b.endswith(b'\n'):
                return 'the last line is not complete'
            lines = b.decode('ascii').split('\n')[:-1]
            head = {}
            k = 0
            while k < len(lines) and lines[k].startswith('?'):
                t = lines[k][1:].strip()
                if t.startswith('COLUMNS'):
                    head['COLUMNS'] = t.split()[1:]
                else:
                    a, _, v = t.partition('=')
                    head[a.strip()] = v.strip()
                k += 1
            if head.get('VERSION') != kw.get('version', '2.0'):
                return 'VERSION is %r' % head.get('VERSION')
            if head.get('COLUMNS') != ['X', 'PX', 'Y', 'PY', 'T', 'P']:
                return 'COLUMNS are %r' % head.get('COLUMNS')
            if int(head['SIZE']) != n:
                return 'SIZE is %s, the species has %d particles' % (head['SIZE'], n)
            if float(head['CHARGE']) != float(np.squeeze(charge)):
                return 'CHARGE is %s, the species has %r' % (head['CHARGE'], charge)
            rows = [[float(x) for x in l.split(' ')] for l in lines[k:]]
            if len(rows) != n or any(len(r) != 6 for r in rows):
                return '%d lines of coordinates, the species has %d particles' % (len(rows), n)
            a = np.array(rows, float).reshape(n, 6)
            t = c[:, 4] / C_LIGHT
            for i in (0, 1, 2, 3, 5):
                if not same_array(a[:, i], c[:, i]):
                    return 'column %d differs from the registered coordinates' % i
            if n:
                rel = t - np.mean(t)
                tol = 1e-14 * (np.max(np.abs(t)) + np.abs(rel)) * (1 + np.log2(n + 1))
                if np.any(np.abs(a[:, 4] - rel) > tol):
                    return 'arrival times differ from those of the registered coordinates'
            return None
    except (wspec.Bad, ValueError, KeyError, IndexError, OverflowError, UnicodeDecodeError) as e:
        return 'the file is not a complete %s file (%s: %s)' % (fmt, type(e).__name__, e)
    return None if close(back, c, 1e-15 * 4) else 'coordinates differ: %s' % np.argwhere(back != c)[:2].tolist()
