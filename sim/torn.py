"""Oracle for SDDS files that end early: what a reader may return for the first `cut` bytes of an encoded file."""
import numpy as np
import sddsref
from sddsref import page_values, compare_page, NP
from core import Violation, same_array


def complete_pages(spec, offs, cut):
    """Number of pages whose content is entirely inside the first cut bytes."""
    slack = 1 if spec['mode'] == 'ascii' else 0
    n = 0
    while n < len(spec['pages']) and offs[n + 1] <= cut:
        n += 1
    return n


def _parse(typ, tok):
    """values a cut token may stand for; None if it cannot be read as that type"""
    if typ == 'string':
        return tok
    try:
        return NP[typ](tok) if typ in ('double', 'float') else int(tok)
    except ValueError:
        return None


def torn_page(spec, page, text, par, col, where, early=None):
    """Check a page returned although only `text` of it is in the (ASCII) file.  None or a description.
    early: what was in the file of this page when the read began (the file grows meanwhile)."""
    pv, cv = page_values(spec, page)
    live = [p for p in spec['params'] if p.get('fixed') is None]
    lines = text.decode('latin-1').split('\n')
    last_torn = lines[-1] != ''           # the file does not end with a newline
    lines = [l for l in lines if not l.lstrip().startswith('!')]
    content = [l for l in lines if l.strip()]
    if len(content) < len(live):
        return '%s: returned although its parameters are not all in the file' % where
    n_lines = len(content)

    def last_ok(typ, got, stored, tok):
        w = _parse(typ, tok)
        if len(got) == 0:
            return False
        if typ == 'string':
            return got[-1] in (stored, tok)
        return same_array(np.array([got[-1]], float), np.array([float(stored)])) or \
            (w is not None and same_array(np.array([got[-1]], float), np.array([w], float)))
    for i, p in enumerate(live):
        got = par[p['name']] if par is not None else None
        if got is None:
            continue
        stored = pv[p['name']]
        if sddsref.same_value(p['type'], got, stored):
            continue
        if i == n_lines - 1 and last_torn and last_ok(p['type'], got, stored, content[i].strip() if p['type'] != 'string' else content[i]):
            continue
        return '%s: parameter %s is %r, stored %r' % (where, p['name'], list(got)[:3], stored)
    if not spec['cols'] or col is None:
        return None
    names = [c['name'] for c in spec['cols']]
    rows = content[len(live):]
    if not spec['norc']:
        if not rows:
            return '%s: returned although its row count is not in the file' % where
        rows = rows[1:]
        nr = page['n']
        if any(len(col[c]) != nr for c in names):
            return '%s: columns have %s rows, the page has %d' % (where, [len(col[c]) for c in names], nr)
    else:
        nr = len(col[names[0]])
        if any(len(col[c]) != nr for c in names):
            return '%s: columns of unequal length %s' % (where, [len(col[c]) for c in names])
    if nr > len(rows):
        return '%s: %d rows returned, %d in the file' % (where, nr, len(rows))
    least = len(rows) - 1
    if early is not None:
        least = len([l for l in early.decode('latin-1').split('\n')[:-1] if l.strip() and not l.lstrip().startswith('!')]) - len(live)
    if spec['norc'] and nr < least:
        return '%s: %d rows returned, %d in the file' % (where, nr, len(rows))
    for k, c in enumerate(spec['cols']):
        got, want = col[c['name']], cv[c['name']]
        lim = min(nr, len(want))
        for j in range(nr):
            g = got[j:j + 1]
            if sddsref.same_column(c['type'], list(g) if c['type'] == 'string' else np.asarray(g), want[j:j + 1]):
                continue
            toks = rows[j].split()
            if j == len(rows) - 1 and last_torn and k == len(spec['cols']) - 1 and len(toks) == len(spec['cols']) and \
                    last_ok(c['type'], list(g) if c['type'] == 'string' else np.asarray(g), want[j], toks[-1]):
                continue
            return '%s: row %d of column %s is %r, stored %r' % (where, j, c['name'], list(g), want[j])
    # every row returned must have all its fields in the file
    if nr and len(rows[nr - 1].split()) < len(spec['cols']):
        return '%s: row %d returned although only %d of its %d fields are in the file' % (where, nr - 1, len(rows[nr - 1].split()), len(spec['cols']))
    return None


def check(spec, b, offs, cut, want, res, label, at_least=None, start=None):
    """res: what a read returned for b[:cut]; want: the page numbers asked for (None = all)."""
    comp = complete_pages(spec, offs, cut)
    need = comp if at_least is None else at_least
    sel = list(range(len(spec['pages']))) if want is None else want
    lens = [len(res[k]) for k in ('params', 'cols') if res[k] is not None]
    if not lens:
        return
    if len(set(lens)) != 1:
        raise Violation('wrong-pages', '%s: %d pages of parameters but %d pages of columns' % (label, lens[0], lens[-1]))
    n = lens[0]
    lo = len([p for p in sel if p < need])
    may = [p for p in sel if p < comp]
    torn = comp if comp < len(spec['pages']) and comp in sel and cut > offs[comp] and spec['mode'] == 'ascii' and cut > offs[0] else None
    hi = len(may) + (torn is not None)
    if n < lo:
        raise Violation('lost-page', '%s: %d pages returned, %d of the requested pages are complete in the file' % (label, n, lo))
    if n > hi:
        raise Violation('invented-page', '%s: %d pages returned, the file holds %d of those requested%s' % (label, n, len(may), ' and a torn one' if torn is not None else ''))
    for k in range(n):
        par = res['params'][k] if res['params'] is not None else None
        col = res['cols'][k] if res['cols'] is not None else None
        if k < len(may):
            d = compare_page(spec, spec['pages'][may[k]], par, col, '%s: page %d' % (label, may[k]))
            if d and spec['norc'] and (start is not None and k == n - 1 or may[k] == len(spec['pages']) - 1 and spec['lay'].get('nofinal')):
                # the end of this page is the end of the file, or was when the reader came there
                d = torn_page(spec, spec['pages'][may[k]], b[offs[may[k]]:min(cut, offs[may[k] + 1])], par, col, '%s: page %d' % (label, may[k]),
                              None if start is None else b[offs[may[k]]:min(max(start, offs[may[k]]), offs[may[k] + 1])])
        else:
            d = torn_page(spec, spec['pages'][torn], b[offs[torn]:cut], par, col, '%s: page %d (torn)' % (label, torn),
                          None if start is None else b[offs[torn]:max(start, offs[torn])])
        if d:
            raise Violation('wrong-data', d)
