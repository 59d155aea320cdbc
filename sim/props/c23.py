"""C23: plots show their data without altering it; a saved plot is complete or the call raises."""
import json, struct, sys, zlib
import numpy as np
from core import *
import core, beams, sddsref
from props import c01

ELEMENTS = {'KQUAD': 'q', 'QUAD': 'q', 'SBEND': 'b', 'CSBEND': 'b', 'CSRCSBEND': 'b', 'RBEND': 'b', 'SBEN': 'b', 'SEXT': 's', 'RFCW': 'r', 'RFCA': 'r', 'OCTU': 'o', 'KOCT': 'o'}
OTHERS = ['DRIF', 'MARK', 'WATCH', 'EDRIFT', 'HKICK']
SYMBOLS = {'Sx': ('$gs$r$bx$n', r'$\sigma_{x}$'), 'Sy': ('', None), 'betax': ('$gb$r$bx$n', r'$\beta_{x}$'), 'etax': ('$gc$r$bx$n', r'$\eta_{x}$'), 'pCentral0': ('p$bcent$n', r'$p_{cent}$')}
UNITS = {'m': '$m$', '': '$-$', 'm$be$nc': '$m_{e}c$', '1/m$a2$n': '$1/m^{2}$'}
GREEK = dict(a='alpha', b='beta', g='gamma', d='delta', e='varepsilon', z='zeta', c='eta', G='Gamma', D='Delta', Q='Theta', q='theta', i='iota', k='kappa', l='lambda', m='mu', n='nu', x='xi', L='Lambda',
             X='Xi', P='Pi', p='pi', r='rho', s='sigma', t='tau', S='Sigma', U='Upsilon', F='Phi', u='upsilon', f='phi', v='chi', y='psi', w='omega', Y='Psi', W='Omega')
shown = []


def symbol(parts, units=False):
    """-> (text in the file, text of the label); parts are [kind, characters]"""
    t, l = '', ''
    for k, c in parts:
        if k == 'g':
            t, l = t + '$g' + c + '$r', l + ''.join('\\' + GREEK[x] for x in c)
        elif k == 's':
            t, l = t + '$sa$e', l + r'\pm'
        elif k in 'ab':
            t, l = t + '$' + k + c + '$n', l + {'a': '^{', 'b': '_{'}[k] + c + '}'
        else:
            t, l = t + c, l + c
    return t, ('$' + l + '$' if t else '$-$' if units else None)


def new_symbol(r, name):
    if r.random() < .15:
        return []
    out = [['p', r.choice(['T', '1/m', '2', '('])]] if r.random() < .2 else []
    if r.random() < .1:
        out.append(['s', ''])
    if not out or out[-1][0] == 's' or r.random() < .5:
        out.append(['g', ''.join(r.choice(sorted(GREEK)) for _ in range(r.choice([1, 1, 2])))])
    for k in 'ab':
        if r.random() < .35:
            out.append([k, r.choice(['x', 'y', '2', 'cent', '-1', 'x0'])])
    return out


def setup():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import rsbeams.rsplot.beam_plots, rsbeams.rsplot.plot_ptcls, rsbeams.rsplot.RsScatterPS6D, rsbeams.rsptcls.RsPhaseSpace6D, rsbeams.rsdata.SDDS
    matplotlib.rcParams['savefig.dpi'] = 24
    matplotlib.rcParams['svg.hashsalt'] = 'x'
    plt.show = lambda *a, **k: shown.append([capture(plt.figure(n)) for n in plt.get_fignums()] and plt.get_fignums() and [plt.get_fignums(), plt.gcf().number])
    fig = plt.figure()
    fig.add_subplot().plot([0, 1])
    fig.savefig(path('warm.png'))
    plt.close('all')


# ------------------------------------------------------------------ what a figure shows
def capture(fig):
    out = []
    for ax in fig.axes:
        out.append({'images': [(np.asarray(im.get_array(), float), [float(v) for v in im.get_extent()], im.origin) for im in ax.images],
                    'lines': [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), str(l.get_label())) for l in ax.lines],
                    'points': [np.asarray(c.get_offsets(), float) for c in ax.collections if len(c.get_offsets()) and c.get_offset_transform() is ax.transData],
                    'paths': [[p.get_extents().extents.tolist() for p in c.get_paths()] for c in ax.collections if type(c).__name__ == 'PatchCollection'],
                    'x': ax.get_xlabel(), 'y': ax.get_ylabel(), 'title': ax.get_title(), 'xlim': list(map(float, ax.get_xlim())), 'ylim': list(map(float, ax.get_ylim())),
                    'scale': [ax.get_xscale(), ax.get_yscale()], 'legend': [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else None})
    return out


def plain(cap):
    return digest(json.loads(json.dumps(cap, default=lambda a: a.tolist())))


def png_problem(b):
    if b[:8] != b'\x89PNG\r\n\x1a\n':
        return 'not a PNG file (%d bytes)' % len(b)
    at, dat, w, h = 8, b'', 0, 0
    while True:
        if at + 12 > len(b):
            return 'the PNG file is truncated'
        n, t = struct.unpack('>I4s', b[at:at + 8])
        body = b[at + 8:at + 8 + n]
        if len(body) < n or at + 12 + n > len(b) or struct.unpack('>I', b[at + 8 + n:at + 12 + n])[0] != zlib.crc32(t + body):
            return 'the PNG file is damaged'
        if t == b'IHDR':
            w, h, depth, kind = struct.unpack('>IIBB', body[:10])
        if t == b'IDAT':
            dat += body
        at += 12 + n
        if t == b'IEND':
            break
    raw = zlib.decompress(dat)
    bpp = {0: 1, 2: 3, 6: 4, 4: 2, 3: 1}[kind]
    if len(raw) < h * (w * bpp + 1):
        return 'the PNG file lacks rows'
    if len(set(raw[k * (w * bpp + 1):(k + 1) * (w * bpp + 1)] for k in range(h))) < 4:
        return 'the PNG image is blank'
    return None


def file_problem(b, ext):
    if b is None:
        return 'the file does not exist'
    try:
        if ext == 'png':
            return png_problem(b)
        if ext == 'svg':
            import xml.etree.ElementTree as ET
            root = ET.fromstring(b)
            return None if sum(1 for e in root.iter() if e.tag.endswith(('path', 'use', 'image'))) > 8 else 'the SVG image is blank'
        if not b.startswith(b'%PDF') or not b.rstrip().endswith(b'%%EOF'):
            return 'the PDF file is truncated'
        at = int(b[b.rindex(b'startxref') + 9:].split()[0])
        return None if b[at:at + 4] == b'xref' or b' obj' in b[at:at + 20] else 'the PDF file is damaged'
    except Exception as e:
        return 'the %s file cannot be read: %r' % (ext, e)


# ------------------------------------------------------------------ generation
def gen(r, i, tier):
    srcs = []
    for _ in range(r.randint(1, 2)):
        srcs.append({'k': 'beam', 'n': choose(r, [(3, r.randint(20, 300)), (1, r.randint(2, 20)), (.3, 1500)]), 's': r.randint(0, 10**9), 'mode': r.choice(['binary', 'ascii']),
                     'charge': r.choice([None, 0.0, 1e-9, 3.5e-12]), 'extra': r.random() < .5, 'pages': r.choice([1, 1, 2]), 'kind': r.choice(['beam', 'beam', 'tails'])})
    if r.random() < .7:
        srcs.append({'k': 'line', 'els': [[r.choice(sorted(ELEMENTS) + OTHERS * 3), (frac(r, 3) + .01)] for _ in range(r.randint(1, 25))], 's': r.randint(0, 10**9), 'mode': r.choice(['binary', 'ascii']),
                     'units': [r.choice(sorted(UNITS)) for _ in SYMBOLS]})
        if r.random() < .7:
            srcs[-1]['sym'] = {k: new_symbol(r, k) for k in SYMBOLS}
        if r.random() < .3:           # elements without length and drifts backwards
            for e in srcs[-1]['els']:
                e[1] = e[1] if r.random() < .7 else 0.0 if e[0] in ELEMENTS else r.choice([0.0, -e[1] / 2])
    srcs.append({'k': 'space', 'n': r.randint(2, 60), 's': r.randint(0, 10**9)})
    if r.random() < .6:
        srcs.append({'k': 'space', 'n': r.randint(2, 60), 's': r.randint(0, 10**9)})
    ops = []
    for _ in range(r.randint(3, 8)):
        j = r.randrange(len(srcs))
        o = {'src': j, 'line': r.randint(0, 60)}
        k = srcs[j]['k']
        if r.random() < .1:
            ops.append(dict(o, k='user', s=r.randint(0, 10**6)))
            continue
        if k == 'beam':
            o['k'] = choose(r, [(2, 'phase_space'), (2.5, 'long'), (1, 'horizontal'), (1, 'vertical'), (1.5, 'projection'), (.6, 'badpage'), (.6, 'badcolumn'), (1, 'particles')])
            o.update(page=r.randrange(srcs[j]['pages']), bins=r.choice([128, 16, 7]), charge=r.choice(['auto', 'auto', 2e-9]), xy=r.sample(['x', 'xp', 'y', 'yp', 't', 'p'], 2),
                     flag=r.choice(['scatter', 'line', 'scatter-line', 'contour', 'combo']), type=r.choice(['linear', 'log-log', 'semi-logx', 'semi-logy']))
        elif k == 'line':
            o['k'] = choose(r, [(4, 'profile'), (1.5, 'magnets')])
            o.update(scale=r.choice([1.0, 100.0, .001, 39.37]), height=r.choice([.25, 2.0, .1]))
            o.update(q=r.sample(sorted(SYMBOLS), r.randint(1, 3)) if r.random() < .7 else None, xlim=[0, 3.5] if r.random() < .3 else None, ylim=[-2, 4] if r.random() < .3 else None)
        else:
            o['k'] = choose(r, [(4, 'plot'), (3, 'save'), (1, 'clear'), (1, 'title'), (1, 'label'), (.5, 'show'), (.5, 'data')])
            o.update(h=r.randrange(6), v=r.randrange(6), text=r.choice(['x [mm]', 'horizontal position [m]', 'a', '$\\beta$ function']))
        if k != 'space' and r.random() < .5 or o['k'] == 'save':
            o['save'] = r.choice(['png', 'png', 'png', 'svg', 'pdf'])
            if r.random() < .6:
                t = choose(r, [(3, 'eio'), (3, 'enospc'), (2, 'close'), (1.5, 'open'), (1.5, 'short'), (1, 'eintr')])
                o['fault'] = dict(k=t, at=frac(r), minus=r.choice([0, 1, 7]), sticky=r.randint(0, 1), err=r.choice(['EACCES', 'EROFS', 'EMFILE']) if t == 'open' else r.choice(['EIO', 'ENOSPC']),
                                  lost=r.choice([0, 5, 10**9]), s=r.randint(0, 10**9), p=.5, max=r.choice([1, 5, 0]) if o['save'] != 'svg' else 0)
        if r.random() < .08:
            o['interrupt'] = 1
        if k != 'space' and r.random() < .3:
            o['leave'] = 1
        ops.append(o)
    return {'srcs': srcs, 'ops': ops}


def symbols_of(s):
    return {k: symbol(v) for k, v in s['sym'].items()} if 'sym' in s else SYMBOLS


def line_bytes(s):
    r = np.random.RandomState(s['s'] % 2**32)
    n = len(s['els'])
    pos = np.cumsum([e[1] for e in s['els']])
    cols = {'s': pos, 'ElementType': [e[0] for e in s['els']]}
    h = 'SDDS1\n!# little-endian\n&column name=s, type=double, units=m, &end\n&column name=ElementType, type=string, &end\n'
    for (k, (sym, _)), u in zip(symbols_of(s).items(), s['units']):
        cols[k] = r.standard_normal(n)
        h += '&column name=%s, type=double,%s%s description="the %s", &end\n' % (k, ' symbol="%s",' % sym if sym else '', ' units="%s",' % u if u else '', k)
    h += '&data mode=%s, &end\n' % s['mode']
    out = [h.encode()]
    if s['mode'] == 'ascii':
        out.append(b'%d\n' % n)
    else:
        out.append(struct.pack('<i', n))
    for i in range(n):
        for k, v in cols.items():
            x = v[i]
            if s['mode'] == 'ascii':
                out.append((x if k == 'ElementType' else repr(float(x))).encode() + (b'\n' if k == list(cols)[-1] else b' '))
            else:
                out.append(struct.pack('<i', len(x)) + x.encode() if k == 'ElementType' else struct.pack('<d', x))
    return b''.join(out), cols


def beam_file(s):
    """-> (bytes, list of dict of columns)"""
    out, pages = [], []
    for p in range(s['pages']):
        f = {'n': s['n'], 's': s['s'] + p, 'kind': s['kind'], 'mode': s['mode'], 'charge': s['charge'], 'extra': s['extra']}
        b = beams.elegant_bytes(f)
        if p:
            b = b[b.index(b'&data'):]
            b = b[b.index(b'\n') + 1:]
        out.append(b)
        c = beams.coords(s['n'], s['s'] + p, s['kind'])
        pages.append({k: c[:, j] for j, k in enumerate(['x', 'xp', 'y', 'yp', 't', 'p'])})
    return b''.join(out), pages


# ------------------------------------------------------------------ comparison
def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    s = np.max(np.abs(b)) if b.size else 0
    return bool(np.all(np.abs(a - b) <= 1e-6 * s + 1e-300))


def pick(got, old, new, why):
    need(got in (old, new), why, 'leaves', got)
    return got


def need(ok, why, what, *more):
    if not ok:
        raise Violation('shows', '%s: %s %s' % (why, what, ' '.join(str(m) for m in more)))


def density(ax, x, y, bins, why):
    need(len(ax['images']) == 1, why, 'no density image')
    im, ext, origin = ax['images'][0]
    need(origin == 'lower', why, 'image is upside down')
    need(im.shape == (bins, bins), why, 'image of', im.shape, 'bins')
    need(im.sum() == len(x), why, 'the image holds %s particles of %d' % (im.sum(), len(x)))
    lim = [x.min(), x.max(), y.min(), y.max()]
    for a in (0, 2):        # a coordinate without spread gets a width of one
        if lim[a] == lim[a + 1]:
            lim[a], lim[a + 1] = lim[a] - .5, lim[a] + .5
    need(near(ext[:2], lim[:2]) and near(ext[2:], lim[2:]), why, 'image spans', ext, 'data span', lim)
    want = np.histogram2d(x, y, bins=bins)[0].T
    need(np.abs(im - want).sum() <= 2 + .02 * len(x), why, 'the image is not the density of the data')


def curve(ax, want_x, want_y, why, tol=0):
    need(len(ax['lines']) == 1, why, '%d curves, expected one' % len(ax['lines']))
    x, y, _ = ax['lines'][0]
    need(near(x, want_x), why, 'horizontal values of the curve', x[:4], 'expected', want_x[:4])
    need(np.asarray(y).shape == want_y.shape and np.abs(y - want_y).sum() <= tol * np.abs(want_y).sum() + 1e-9 * np.abs(want_y).max(), why, 'values of the curve', y[:4], 'expected', want_y[:4])


def hist(a, n=256):
    c, e = np.histogram(a, bins=n)
    return (e[1:] + e[:-1]) / 2, c.astype(float)


def counted(got, want, n):
    # every particle once; rounding may move one at the edge of a bin
    return np.sum(got) == n and np.abs(got - want).sum() <= 2 + .02 * n


def contours(ref, x, y, why):
    """The bands of the contour plot lie where the density has their values."""
    h, ex, ey = np.histogram2d(x, y, 10)
    lev = [float(v) for v in ref.levels]
    need(lev == sorted(lev) and abs(lev[-1] - h.max()) <= 1e-9 * h.max(), why, 'levels', lev, 'the highest density is', h.max())
    some = 0
    for lo, hi, segs in zip(lev[:-1], lev[1:], ref.allsegs):
        for v in np.concatenate([np.reshape(q, (-1, 2)) for q in segs]) if segs else ():
            a, b = (v[0] - ex[0]) / (ex[-1] - ex[0]) * 9, (v[1] - ey[0]) / (ey[-1] - ey[0]) * 9
            need(-1e-6 <= min(a, b) and max(a, b) <= 9 + 1e-6, why, 'contour outside of the data at', v)
            c = h[max(0, int(np.floor(a - .51))):int(np.ceil(a + .51)) + 1, max(0, int(np.floor(b - .51))):int(np.ceil(b + .51)) + 1]
            need(c.max() >= lo - 1e-6 and c.min() <= hi + 1e-6, why, 'a contour of densities %g to %g at %s, where the data have %g to %g' % (lo, hi, v, c.min(), c.max()))
            some += 1
    need(some or h.min() >= h.max(), why, 'no contours')


def thin(x, y):
    """Particles outside of every region a contour of eight particles per cell can enclose."""
    h, ex, ey = np.histogram2d(x, y, 10)
    pad = np.pad(h, 2)
    low = np.array([[pad[i:i + 5, j:j + 5].max() < 8 for j in range(10)] for i in range(10)])
    out, todo = set(), [(i, j) for i in range(10) for j in range(10) if low[i, j] and (i in (0, 9) or j in (0, 9))]
    while todo:
        c = todo.pop()
        if c not in out:
            out.add(c)
            todo += [q for q in ((c[0] + 1, c[1]), (c[0] - 1, c[1]), (c[0], c[1] + 1), (c[0], c[1] - 1)) if 0 <= min(q) and max(q) < 10 and low[q]]
    at = np.clip((x - ex[0]) / (ex[1] - ex[0]), 0, 9).astype(int), np.clip((y - ey[0]) / (ey[1] - ey[0]), 0, 9).astype(int)
    return [(float(a), float(b)) for a, b, i, j in zip(x, y, *at) if (i, j) in out]


def magnets(src, data, ax, scale, height, why):
    s0, rect = 0.0, []
    for (t, _), s in zip(src['els'], data['s']):
        if t in ELEMENTS:
            rect.append([s0 * scale, s * scale])
        s0 = s
    got = [[e[0], e[2]] for c in ax['paths'] for e in c]
    high = [[e[1], e[3]] for c in ax['paths'] for e in c]
    need(all(np.allclose(h, [-height / 2, height / 2], atol=1e-9) for h in high), why, 'magnets of height', height, 'are drawn at', high[:4])
    need(len(got) == len(rect) and (not rect or np.allclose(got, rect, rtol=1e-9, atol=1e-9 * scale)), why, 'magnets drawn at', got[:4], 'expected', rect[:4])


def judge(o, src, data, cap, why):
    k = o['k']
    if k == 'phase_space':
        need(len(cap) == 4, why, '%d panels' % len(cap))
        t, p = data['t'], data['p']
        sets = [(data['x'] * 1e3, data['xp'] * 1e3), (data['y'] * 1e3, data['yp'] * 1e3), (data['x'] * 1e3, data['y'] * 1e3), ((t - t.mean()) * 1e12, (p - p.mean()) / p.mean())]
        for n, (ax, d) in enumerate(zip(cap, sets)):
            density(ax, d[0], d[1], o['bins'], '%s panel %d' % (why, n))
        need([(a['x'], a['y']) for a in cap[:3]] == [('x (mm)', "x' (mrad)"), ('y (mm)', "y' (mrad)"), ('x (mm)', 'y (mm)')], why, 'labels', [(a['x'], a['y']) for a in cap])
    elif k in ('horizontal', 'vertical', 'projection'):
        a, b = {'horizontal': ('x', 'xp'), 'vertical': ('y', 'yp'), 'projection': o['xy']}[k]
        x, y = data[a] * 1e3, data[b] * 1e3
        need(len(cap) == 3, why, '%d panels' % len(cap))
        density(cap[0], x, y, 128, why)
        cx, n = hist(y)
        curve(cap[1], n, cx, why + ' side') if False else None
        need(len(cap[1]['lines']) == 1 and near(cap[1]['lines'][0][1], cx) and counted(cap[1]['lines'][0][0], n, len(x)), why, 'the vertical profile is not that of the data')
        cx, n = hist(x)
        need(len(cap[2]['lines']) == 1 and near(cap[2]['lines'][0][0], cx) and counted(cap[2]['lines'][0][1], n, len(x)), why, 'the horizontal profile is not that of the data')
        lab = {'horizontal': ('x (mm)', "x' (mrad)"), 'vertical': ('y (mm)', "y' (mrad)"), 'projection': ('first', 'second')}[k]
        need((cap[2]['x'], cap[0]['y']) == lab, why, 'labels', (cap[2]['x'], cap[0]['y']))
    elif k == 'long':
        t, p = data['t'] - data['t'].mean(), data['p']
        need(len(cap) == 3, why, '%d panels' % len(cap))
        density(cap[0], t * 1e12, p, 128, why)
        q = o['charge']
        if q == 'auto':
            q = src['charge'] or None
        cx, n = hist(t)
        w = n / len(t) / (cx[1] - cx[0])
        w = w / w.max() if q is None else w * q
        need(len(cap[2]['lines']) == 1, why, 'no current profile')
        x, y, _ = cap[2]['lines'][0]
        need(near(x, cx * 1e12) and np.asarray(y).shape == w.shape and np.abs(y - w).sum() <= (3 / len(t) + .02) * w.sum() and (q is None or abs(np.sum(y) / w.sum() - 1) < 1e-6), why, 'the current profile is not that of charge', q, '(sum', y.sum(), 'expected', w.sum(), ')')
        need(cap[2]['y'] == ('Current (A)' if q else 'Counts ()'), why, 'label', cap[2]['y'])
        cx, n = hist(p)
        need(len(cap[1]['lines']) == 1 and near(cap[1]['lines'][0][1], cx) and counted(cap[1]['lines'][0][0], n, len(p)), why, 'the momentum profile is not that of the data')
        need(cap[2]['x'] == 't (ps)' and cap[0]['y'].startswith('p '), why, 'labels', cap[2]['x'], cap[0]['y'])
    elif k == 'profile':
        q = o['q'] or ['Sx', 'Sy']
        need(len(cap) == 2, why, '%d panels' % len(cap))
        L = cap[1]['lines']
        need(len(L) == len(q), why, '%d curves, expected %d' % (len(L), len(q)))
        table = symbols_of(src)
        lab = [table[n][1] or 'the ' + n for n in q]
        for (x, y, l), n, w in zip(L, q, lab):
            need(np.array_equal(x, data['s']) and np.array_equal(y, data[n]), why, 'the curve of %s is not that of the data' % n)
            need(l == w, why, 'the curve of %s is labelled %r, expected %r' % (n, l, w))
        need(cap[1]['legend'] == lab, why, 'legend', cap[1]['legend'])
        u = dict(zip(table, src['units']))
        want = ','.join(lab) + ' (' + ','.join(UNITS[u[n]] for n in q) + ')'
        need(cap[1]['x'] == 's (m)', why, 'axis label', cap[1]['x'])
        need(cap[1]['y'] == want, why, 'axis label %r, expected %r' % (cap[1]['y'], want))
        for a, key in ((o['xlim'], 'xlim'), (o['ylim'], 'ylim')):
            if a:
                need(cap[1][key] == [float(v) for v in a], why, key, cap[1][key])
        magnets(src, data, cap[0], 1.0, .25, why)
    elif k == 'magnets':
        magnets(src, data, cap[0], o['scale'], o['height'], why)
    elif k == 'particles':
        x, y = data[o['xy'][0]], data[o['xy'][1]]
        if o['type'] != 'linear':
            x, y = np.abs(x), np.abs(y)
        ax = cap[0]
        if o['flag'] in ('scatter', 'scatter-line'):
            need(len(ax['points']) == 1 and np.array_equal(ax['points'][0], np.column_stack([x, y])), why, 'the points are not those of the data')
        need(len(ax['lines']) == (1 if o['flag'].endswith('line') else 0), why, '%d lines' % len(ax['lines']))
        if o['flag'].endswith('line'):
            need(np.array_equal(ax['lines'][0][0], x) and np.array_equal(ax['lines'][0][1], y), why, 'the line is not that of the data')
        if o['flag'] == 'combo' and ax['points']:
            P = ax['points'][0]
            rows = set(map(tuple, np.column_stack([x, y]).tolist()))
            need(all(tuple(q) in rows for q in P.tolist()), why, 'a point is not in the data')
        if o['flag'] in ('contour', 'combo'):
            contours(o['ref'][-1], x, y, why)
        if o['flag'] == 'combo':
            shown_rows = set(map(tuple, ax['points'][0].tolist())) if ax['points'] else set()
            need(all(tuple(q) in shown_rows for q in thin(x, y)), why, 'particles far from the dense region are not shown')
        if o['flag'] in ('line', 'scatter', 'scatter-line'):
            want = {'linear': ['linear', 'linear'], 'log-log': ['log', 'log'], 'semi-logx': ['log', 'linear'], 'semi-logy': ['linear', 'log']}[o['type']]
            need(ax['scale'] == want, why, 'scales', ax['scale'])


def run(case):
    import matplotlib.pyplot as plt
    try:
        plt.close('all')
        return _run(case)
    finally:
        plt.close('all')


def _run(case):
    import matplotlib.pyplot as plt
    from rsbeams.rsdata.SDDS import readSDDS
    from rsbeams.rsplot import beam_plots, plot_ptcls, util
    from rsbeams.rsplot.RsScatterPS6D import RsScatterPS6D
    from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
    io = core.io()
    obj, data, plotters = [], [], {}
    for j, s in enumerate(case['srcs']):
        if s['k'] == 'space':
            ps = RsPhaseSpace6D(s['n'])
            ps.set_array_6d(beams.coords(s['n'], s['s'], 'beam').T.copy())
            obj.append(ps)
            data.append(ps.get_array_6d().copy())
            plotters[j] = {'p': RsScatterPS6D(ps), 'title': 'no plot title specified', 'labels': ['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0'], 'fig': None, 'data': data[j], 'failed': False}
            continue
        b, d = beam_file(s) if s['k'] == 'beam' else line_bytes(s)
        put('src%d' % j, b)
        rd = readSDDS(path('src%d' % j))
        rd.read()
        obj.append(rd)
        data.append(d)
    before = [contents(o) for o in obj]
    mine = {}                 # figures that stay open: number -> (what, digest of content)
    ev = []

    def tidy():
        for n in plt.get_fignums():
            if n not in mine:
                plt.close(n)

    for n, o in enumerate(case['ops']):
        STAT['runs'] += 1
        k, j = o['k'], o['src']
        src, ob = case['srcs'][j], obj[j]
        ext = o.get('save')
        fn = 'p%d.%s' % (n, ext)
        why = '%s of source %d (%s)%s' % (k, j, {a: b for a, b in src.items() if a not in ('els', 'units', 'sym')}, ' saved as %s' % ext if ext else '')
        del shown[:]
        expect_raise = False
        content = None
        pl = plotters.get(j)
        if k == 'user':
            fig = plt.figure()
            fig.add_subplot().plot(np.arange(5.0) * o['s'])
            mine[fig.number] = ('a figure of the user', plain(capture(fig)))
            continue
        if k in ('plot', 'save', 'clear', 'title', 'label', 'show', 'data'):
            p = pl['p']
            known = set(plt.get_fignums())
            if k in ('save', 'clear', 'show') and pl['fig'] is None:
                continue
            if k == 'plot':
                fn_ = lambda: p.plot_data6d(o['h'], o['v'])
            elif k == 'save':
                fn_ = lambda: p.save_plots(path(fn))
                content = plain(capture(plt.figure(pl['fig'])))
                if len(mine) > 1:      # some other figure is the current one
                    plt.figure(sorted(mine)[o['line'] % len(mine)])
            elif k == 'clear':
                fn_ = p.clear_plots
            elif k == 'show':
                fn_ = p.show_plots
            elif k == 'title':
                fn_ = lambda: p.set_title(o['text'])
            elif k == 'label':
                fn_ = lambda: p.set_label(o['h'], o['text'])
            else:
                nd = beams.coords(src['n'], src['s'] + 99, 'beam').T.copy()
                fn_ = lambda: p.set_data6d(nd)
        else:
            page = o.get('page', 0)
            sv = path(fn) if ext else None
            if k == 'phase_space':
                fn_ = lambda: beam_plots.phase_space(ob, page=page, bins=o['bins'], save=sv)
            elif k == 'long':
                fn_ = lambda: beam_plots.longitudinal_phase_space(ob, page=page, charge=o['charge'], save=sv)
            elif k == 'horizontal':
                fn_ = lambda: beam_plots.horizontal_phase_space(ob, page=page, save=sv)
            elif k == 'vertical':
                fn_ = lambda: beam_plots.vertical_phase_space(ob, page=page, save=sv)
            elif k == 'projection':
                fn_ = lambda: beam_plots.phase_space_projection(ob, o['xy'][0], o['xy'][1], x_label='first', y_label='second', page=page, save=sv)
            elif k == 'profile':
                fn_ = lambda: beam_plots.beamline_profile(ob, quantities=o['q'], xlim=o['xlim'], ylim=o['ylim'], save=sv)
            elif k == 'magnets':
                def fn_():
                    fig, ax = plt.subplots()
                    util.plot_profile(ob.columns[0], ax, scale=o['scale'], height=o['height'])
                    if sv:
                        plt.savefig(sv)
            elif k == 'badpage':
                expect_raise = True
                fn_ = lambda: beam_plots.phase_space(ob, page=9, save=sv)
            elif k == 'badcolumn':
                expect_raise = True
                fn_ = lambda: beam_plots.phase_space_projection(ob, 'x', 'nowhere', save=sv)
            elif k == 'particles':
                d = ob.columns[page]
                x, y = (d[c] if o['type'] == 'linear' else np.abs(d[c]) for c in o['xy'])
                xb, yb = x.tobytes(), y.tobytes()

                ref = []

                def fn_():
                    fig, ax = plt.subplots()
                    if o['line'] % 3 == 0 and o['flag'] not in ('contour', 'combo'):         # axes that were used for something else
                        ax.set_xscale('log')
                        ax.set_yscale('log')
                    ref.append(plot_ptcls.scatter_contour(o['flag'], o['type'], x, y, ax))
                    if sv:
                        plt.savefig(sv)
                h = np.histogram2d(x, y, 10)[0]
                if o['flag'] in ('combo', 'contour') and h.max() <= (8 if o['flag'] == 'combo' else 1):
                    continue            # no levels above the threshold of the plot
        if 'interrupt' in o:
            prev, left = core._hook, [o['line']]

            def hook(code, line):
                left[0] -= 1
                if left[0] == -1:
                    fired('interrupt')
                    raise KeyboardInterrupt('injected')
            core.set_line_hook(hook)
            try:
                fn_()
                st, v = 'ok', None
            except KeyboardInterrupt as e:
                st, v = 'interrupted', None
            except Exception as e:
                st, v = 'raise', e
                if not expect_raise:
                    raise Violation('raises', '%s raises %r' % (why, e))
            finally:
                core.set_line_hook(prev)
        else:
            plan = []
            if o.get('fault') and ext:
                io.reset()
                if k == 'save':
                    with io:
                        plt.figure(pl['fig']).savefig(path('probe.' + ext), bbox_inches='tight')
                else:
                    attempt(probe_of(fn_, sv, path('probe.' + ext), k, ob, o, page, beam_plots, plot_ptcls), io)
                    tidy()
                    del shown[:]
                if io.count['write']:
                    plan = c01.plan_of(o['fault'], {'write': io.count['write'], 'bytes': io.total_written, 'close': io.count['close'], 'open': io.count['open']})
                if k == 'save' and len(mine) > 1:
                    plt.figure(sorted(mine)[o['line'] % len(mine)])
            io.reset(plan)
            st, v = attempt(fn_, io)
            note_io(io)
            why += ' under %s' % plan if plan else ''
            hard = [x for x in io.fired if not x.startswith(('short', 'eintr'))]
            if expect_raise and st == 'ok':
                raise Violation('accepted', '%s returns normally' % why)
            if not expect_raise and st != 'ok' and not hard:
                raise Violation('raises', '%s raises %r' % (why, v))
            if st == 'ok' and ext:
                d = file_problem(get(fn), ext)
                if d:
                    raise Violation('silent-loss' if hard else 'incomplete', '%s returned normally: %s' % (why, d))
            state(k, ext, o.get('fault', {}).get('k'), st, sorted(io.fired), src['k'], src.get('charge') is None, o.get('flag'), o.get('type'), len(mine))
        # -------- what is shown
        if pl:
            if k == 'plot':
                new = [f for f in plt.get_fignums() if f not in mine]
                if st == 'ok':
                    need(len(new) == 1, why, 'plotting a beam opens figures %s next to %s' % (new, sorted(mine)))
                    cap = capture(plt.figure(new[0]))
                    need(len(cap) == 1 and len(cap[0]['points']) == 1 and np.array_equal(cap[0]['points'][0], pl['data'][[o['h'], o['v']]].T), why, 'the points are not those of the beam')
                    hm, vm = (np.abs(pl['data'][q]).max() for q in (o['h'], o['v']))
                    need(near(cap[0]['xlim'], [-hm, hm]) and near(cap[0]['ylim'], [-vm, vm]), why, 'limits', cap[0]['xlim'], cap[0]['ylim'])
                    need((cap[0]['x'], cap[0]['y'], cap[0]['title']) == (pl['labels'][o['h']], pl['labels'][o['v']], pl['title']), why, 'labels', (cap[0]['x'], cap[0]['y'], cap[0]['title']))
                    pl['fig'] = new[0]
                    mine[new[0]] = ('a plot of source %d' % j, plain(cap))
                else:
                    for f in new:
                        plt.close(f)
                    pl['p'] = RsScatterPS6D(ob)
                    pl.update(fig=None, title='no plot title specified', labels=['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0'], data=data[j])
            elif k == 'save':
                if st == 'ok':
                    mine.pop(pl['fig'], None)
                    plt.close(pl['fig'])
                    pl['fig'] = None
                elif st == 'interrupted':
                    mine.pop(pl['fig'], None)
                    plt.close(pl['fig'])
                    pl['fig'] = None
                elif pl['fig'] not in plt.get_fignums() or plain(capture(plt.figure(pl['fig']))) != content:
                    raise Violation('lost', '%s failed and the plot is gone' % why)
            elif k == 'clear':
                mine.pop(pl['fig'], None)
                if st == 'ok' and pl['fig'] in plt.get_fignums() and plt.figure(pl['fig']).axes:
                    raise Violation('shows', '%s does not clear the plot' % why)
                plt.close(pl['fig'])
                pl['fig'] = None
            elif k == 'title' and st == 'ok':
                pl['title'] = o['text']
                need(pl['p'].get_title() == o['text'], why, 'title', pl['p'].get_title())
            elif k == 'label' and st == 'ok':
                pl['labels'][o['h']] = o['text']
                need(pl['p'].get_label(o['h']) == o['text'], why, 'label', pl['p'].get_label(o['h']))
            elif k == 'data' and st == 'ok':
                pl['data'] = nd
            elif st == 'interrupted' and k in ('title', 'label', 'data'):      # before or after it took effect
                pl['title'] = pick(pl['p'].get_title(), pl['title'], o['text'], why)
                pl['labels'][o['h']] = pick(pl['p'].get_label(o['h']), pl['labels'][o['h']], o['text'], why)
                if k == 'data' and pl['p'].get_data6d() is nd:
                    pl['data'] = nd
        elif st == 'ok':
            new = [f for f in plt.get_fignums() if f not in mine]
            if k not in ('particles', 'magnets'):
                need(len(shown) == 1, why, 'the plot was shown %d times' % len(shown))
            need(len(new) == 1, why, 'opens figures %s' % new)
            judge(dict(o, ref=ref) if k == 'particles' else o, src, data[j][page] if src['k'] == 'beam' else {a: np.asarray(b) for a, b in data[j].items()}, capture(plt.figure(new[0])), why)
        if o.get('leave') and st == 'ok':
            for f in plt.get_fignums():
                if f not in mine:
                    mine[f] = ('an earlier plot', plain(capture(plt.figure(f))))
        tidy()
        for f, (what, dg) in list(mine.items()):
            if f not in plt.get_fignums() or plain(capture(plt.figure(f))) != dg:
                raise Violation('other-figure', '%s alters or closes %s' % (why, what))
        for q, ob_ in enumerate(obj):
            if contents(ob_) != before[q]:
                raise Violation('altered', '%s alters the data of source %d' % (why, q))
        ev.append([k, st, digest(get(fn).hex()) if ext in ('png',) and st == 'ok' else ext])
    return ev


def probe_of(fn_, sv, probe, k, ob, o, page, beam_plots, plot_ptcls):
    """The same plot saved to another file, to learn the number of file operations."""
    import matplotlib.pyplot as plt
    if k == 'phase_space':
        return lambda: beam_plots.phase_space(ob, page=page, bins=o['bins'], save=probe)
    if k == 'long':
        return lambda: beam_plots.longitudinal_phase_space(ob, page=page, charge=o['charge'], save=probe)
    if k == 'horizontal':
        return lambda: beam_plots.horizontal_phase_space(ob, page=page, save=probe)
    if k == 'vertical':
        return lambda: beam_plots.vertical_phase_space(ob, page=page, save=probe)
    if k == 'projection':
        return lambda: beam_plots.phase_space_projection(ob, o['xy'][0], o['xy'][1], x_label='first', y_label='second', page=page, save=probe)
    if k == 'profile':
        return lambda: beam_plots.beamline_profile(ob, quantities=o['q'], xlim=o['xlim'], ylim=o['ylim'], save=probe)

    def other():
        if k == 'particles':
            d = ob.columns[page]
            x, y = (d[c] if o['type'] == 'linear' else np.abs(d[c]) for c in o['xy'])
            fig, ax = plt.subplots()
            plot_ptcls.scatter_contour(o['flag'], o['type'], x, y, ax)
            plt.savefig(probe)
    return other


def contents(ob):
    if hasattr(ob, 'get_array_6d'):
        return ob.get_array_6d().tobytes(), ob.get_array_6d().shape
    return ob.columns.tobytes(), ob.columns.shape, ob.columns.dtype.names, ob.parameters.tobytes() if ob._parameters else None


def shrink(case):
    yield from drop_items(case, ('ops',))
    for i, o in enumerate(case['ops']):
        for q in ('fault', 'interrupt', 'leave'):
            if q in o:
                c = json.loads(json.dumps(case))
                del c['ops'][i][q]
                yield c
        if 'save' in o and o['k'] != 'save':
            c = json.loads(json.dumps(case))
            del c['ops'][i]['save']
            c['ops'][i].pop('fault', None)
            yield c
    used = {o['src'] for o in case['ops']}
    if len(case['srcs']) > 1 and len(case['srcs']) - 1 not in used:
        yield set_at(case, ('srcs',), case['srcs'][:-1])
