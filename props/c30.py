"""C30: printed tables show the data they stand for."""
import contextlib
import io
import math
import re

import numpy as np

import nimble
from hypothesis import strategies as st

from lib.core import Test, ensure, missing
from lib.data import (TYPES, Table, build, ensure_same_snapshot, rows_of,
                      snapshot, nan)

N = nimble.exceptions
pick = st.sampled_from
HOLD, BAR, CORNER = '\u2500\u2500', '\u2502', '\u250c'

NAMES = ['a', 'b', 'c', 'd', 'ab', 'x y', 'long name here', 'é', '0', '-1',
         'feature_number_ten', 'q' * 25, 'A', 'zz', 'some other name',
         'n1', 'n2', 'n3', 'n4', 'n5', 'n6', 'n7', 'n8', 'n9', 'n10', 'n11',
         'n12', 'n13', 'n14', 'n15', 'n16', 'n17', 'n18', 'n19', 'n20',
         'n21', 'n22', 'n23', 'n24', 'n25', 'n26', 'n27', 'n28', 'n29',
         'n30', 'n31']
ELEMENTS = {
    'int': [0, 1, -5, 12345, 7, 123456789012345678],
    'float': [0.0, 1.5, -2.25, 1e6, 1234.56789, 0.001, -0.0004, 1e21],
    'nan': [0.0, 1.5, nan, nan, -20.125],
    'bool': [True, False],
    'str': ['a', 'bb', 'x y', 'a longer piece of text than fits', 'é', '1',
            '-'],
    'mixed': [0, 1.25, 'a', nan, 'some text', True, 100],
    'missing': [nan],
}


@st.composite
def tables(draw, big=True):
    rtype = draw(pick(TYPES))
    if draw(st.booleans()):
        p, f = draw(st.integers(0, 6)), draw(st.integers(0, 8))
    else:
        p = draw(pick([1, 2, 3, 9, 10, 11, 12, 29, 30, 31]))
        f = draw(pick([1, 2, 3, 9, 10, 11, 12, 24, 30]))
    kinds = ['int', 'float', 'nan', 'missing'] if rtype == 'Sparse' \
        else sorted(ELEMENTS)
    if rtype == 'Sparse' and draw(pick([0, 0, 0, 1])):
        ks = ['bool'] * f
    elif draw(st.booleans()):
        # a few columns drawn, repeated: large tables from little data
        few = draw(st.lists(pick(kinds), min_size=1, max_size=4))
        ks = [few[j % len(few)] for j in range(f)]
    else:
        ks = [draw(pick(kinds))] * f
    salt = draw(st.integers(0, 50))
    rows = [[ELEMENTS[k][(salt + 3 * i + 5 * j + i * j) % len(ELEMENTS[k])]
             for j, k in enumerate(ks)] for i in range(p)]

    def names(n):
        how = draw(pick(['none', 'none', 'all', 'some', 'long']))
        if how == 'none':
            return None
        off = draw(st.integers(0, 40))
        pool = [NAMES[(off + i) % len(NAMES)] for i in range(n)]
        if how == 'long':
            pool = [x + '_' * (5 * (i % 4)) + str(i)
                    for i, x in enumerate(pool)]
        if how == 'some':
            k = draw(st.integers(1, 7))
            pool = [x if (i * k) % 3 else None for i, x in enumerate(pool)]
        return pool
    t = {'rows': rows, 'pn': names(p), 'fn': names(f), 'f': f,
         'type': rtype}
    view = draw(pick([None, None, None, 1, 2, 3])) if p and f else None
    return {'t': t, 'view': view, 'name': draw(pick([None, None, 'obj']))}


def make(case):
    t = Table.of(case['t'])
    o = build(case['t'], case['t']['type'], name=case['name'])
    if case['view']:
        a = min(case['view'] & 1, t.np - 1)
        b = min(case['view'] >> 1, t.nf - 1)
        o = o.view(a, t.np - 1, b, t.nf - 1)
        o.name = None
        t = Table([r[b:] for r in t.rows[a:]], t.pn[a:], t.fn[b:], t.nf - b)
    return o, t


# ---- how a cell is written ------------------------------------------------

def shown(v, sig):
    if v is None or missing(v):
        return ''
    if isinstance(v, float):
        return format(v, '.%df' % sig) if sig is not None else str(v)
    return str(v)


def fits(text, full, limit, what):
    """Is text the full one, or cut to the limit with a mark?"""
    full = full.strip()
    if text == full:
        return
    ensure(text.endswith('\u2500') and len(text) <= limit
           and full.startswith(text[:-1].rstrip()) and len(full) > limit,
           what, 'shows', text, 'for', full, 'with at most', limit,
           'characters')


def label(names, i, include, quote):
    if not include or names[i] is None:
        return str(i)
    return "'%s'" % names[i] if quote else names[i]


def label_fits(text, names, i, include, quote, limit, what):
    full = label(names, i, include, quote)
    if text == full.strip():
        return
    ensure(include and names[i] is not None, what, 'shows', text, 'for',
           full)
    inner = text
    if quote:
        ensure(text[:1] == "'" == text[-1:], what, 'quotes', text)
        inner = text[1:-1]
    ensure(inner.endswith('\u2500') and len(text) <= limit
           and names[i].startswith(inner[:-1].rstrip())
           and len(full) > limit, what, 'shows', text, 'for', full,
           'with at most', limit, 'characters')


# ---- reading a table back ---------------------------------------------------

class Grid:
    def __init__(self, text, indent, what, quiet=False):
        lines = text.split('\n')
        ensure(lines[-1] == '', what, 'does not end in a newline', text)
        lines = lines[:-1]
        ensure(len(lines) >= 2, what, 'has too few lines', text)
        for ln in lines:
            ensure(ln.startswith(indent) or not ln.strip(), what,
                   'indent', ln)
        self.lines = lines
        sep = lines[1]
        self.at = sep.index(CORNER)
        ensure(set(sep[:self.at]) <= {' '}
               and set(sep[self.at + 1:]) <= {'\u2500'}, what,
               'line below the header is', sep)
        body = []
        for ln in lines[2:]:
            ensure(ln[self.at:self.at + 1] == BAR, what, 'row', ln,
                   'under', sep)
            body.append((ln[len(indent):self.at].strip(),
                         ln[self.at + 1:]))
        self.labels = [b[0] for b in body]
        head = lines[0][self.at + 1:]
        ensure(not lines[0][:self.at + 1].strip(), what, 'header', lines[0])
        width = max([len(head)] + [len(b[1]) for b in body])
        grid = [head.ljust(width)] + [b[1].ljust(width) for b in body]
        # columns are separated by two blanks or more
        blank = [all(g[c] == ' ' for g in grid) for c in range(width)]
        spans, c = [], 0
        while c < width:
            if blank[c]:
                c += 1
                continue
            e = c
            while e < width and not (blank[e] and (e + 1 == width
                                                   or blank[e + 1])):
                e += 1
            spans.append((c, e))
            c = e
        self.cells = [[g[a:b].strip() for a, b in spans] for g in grid]
        self.widths = [b - a for a, b in spans]
        self.text = text
        self.width = max(len(ln) for ln in lines)


def chosen(labels, n, start, is_hold, expected, what):
    """
    The indices that a sequence of shown labels stands for: the first ones,
    a mark if any are left out, the last ones.
    """
    holds = [k for k, x in enumerate(labels) if is_hold(k)]
    m = len(labels)
    if m == n and not holds:
        return list(range(start, start + n)), None
    ensure(len(holds) == 1, what, 'has', len(holds), 'marks for', m,
           'of', n, labels)
    h = holds[0]
    first, last = h, m - h - 1
    ensure(first + last < n, what, 'has a mark but all of', n, labels)
    ensure(first - last in (0, 1), what, 'shows the first', first,
           'and the last', last)
    return (list(range(start, start + first))
            + list(range(start + n - last, start + n))), h


def check_table(text, t, o, case, what, indent=''):
    """Does the text show the table, as asked for by the case?"""
    inc_p, inc_f, quote = case['incp'], case['incf'], case['quote']
    climit, sig = case['column'], case['sig']
    g = Grid(text, indent, what)
    pr = case['points']
    p0, np_ = 0, t.np
    if isinstance(pr, range):
        p0, p1 = max(pr.start, 0), min(pr.stop, t.np)
        np_ = max(p1 - p0, 0)
    fr = case['features']
    f0, nf = 0, t.nf
    if isinstance(fr, range):
        f0, f1 = max(fr.start, 0), min(fr.stop, t.nf)
        nf = max(f1 - f0, 0)
    # which points
    body = g.cells[1:]

    def row_hold(k):
        return g.labels[k] in (BAR, '\u2500', HOLD) and bool(body[k]) and \
            all(x in (BAR, HOLD) for x in body[k])
    named_bar = any(x in (BAR,) for x in t.pn)
    assert not named_bar
    if nf == 0:
        return g, None, None
    if np_ and not body and g.cells[0] == [HOLD] and case['width']:
        if 'any column' in case:
            return g, 0, 0
        # not even the first feature fits
        shown_rows = [i for i in range(p0, p0 + np_)]
        w = max([len(label(t.fn, f0, inc_f, quote))]
                + [len(shown(o[i, f0], sig)) for i in shown_rows])
        room = case['width'] - g.at - 2 - (4 if nf > 1 else 0)
        ensure(min(w, max(climit, len(str(f0)))) > room, what,
               'shows no feature, with room', room, 'for', w)
        return g, 0, 0
    pts, h = chosen(g.labels, np_, p0, row_hold, None, what + ': points')
    rows = [b for k, b in enumerate(body) if k != h]
    labels = [x for k, x in enumerate(g.labels) if k != h]
    # which features
    fts, hf = chosen(g.cells[0], nf, f0, lambda k: g.cells[0][k] == HOLD
                     and all(r[k] == HOLD for r in rows), None,
                     what + ': features')
    for x, i in zip(labels, pts):
        label_fits(x, t.pn, i, inc_p, quote, climit, what)
    cols = [k for k in range(len(g.cells[0])) if k != hf]
    for k, j in zip(cols, fts):
        label_fits(g.cells[0][k], t.fn, j, inc_f, quote, climit, what)
        for r, i in zip(rows, pts):
            fits(r[k], shown(o[i, j], sig), climit, what + ' at %d, %d'
                 % (i, j))
    # limits
    if case['width'] is not None:
        ensure(g.width <= case['width'], what, 'is', g.width, 'wide, not',
               case['width'], '\n' + text)
    if case['lines'] is not None:
        ensure(len(g.lines) <= case['lines'], what, 'has', len(g.lines),
               'lines, not', case['lines'])
        if h is not None and not isinstance(pr, int):
            ensure(len(g.lines) == case['lines'], what, 'has', len(g.lines),
                   'lines of', case['lines'], 'but left out points')
    elif not isinstance(pr, int):
        ensure(h is None, what, 'leaves out points without a limit')
    if isinstance(pr, int):
        ensure(len(pts) <= pr, what, 'shows', len(pts), 'points of', pr)
    if isinstance(fr, int):
        ensure(len(fts) <= fr, what, 'shows', len(fts), 'features of', fr)
        if case['width'] is None:
            ensure(len(fts) == min(fr, nf), what, 'shows', len(fts),
                   'features of', fr)
    elif case['width'] is None:
        ensure(hf is None, what, 'leaves out features without a limit')
    # nothing is left out that would fit
    allowed = nf if not isinstance(fr, int) else min(fr, nf)
    if hf is not None and len(fts) < allowed and case['width'] is not None \
            and 'any column' not in case:
        left = sum(1 for k in cols if k < hf)
        right = len(cols) - left
        nxt = f0 + left if left == right else f0 + nf - 1 - right
        w = max([len(label(t.fn, nxt, inc_f, quote))]
                + [len(shown(o[i, nxt], sig)) for i in pts])
        w = min(w, max(climit, len(str(nxt))))
        room = case['width'] - g.width - 2
        if len(fts) + 1 == nf:
            room += 4
        ensure(w > room, what, 'leaves out', nxt, 'of width', w, 'with room',
               room, '\n' + text)
    return g, h, hf


@st.composite
def printings(draw):
    case = draw(tables())

    def limit(n):
        k = draw(pick(['none', 'none', 'none', 'int', 'range', 'range']))
        if k == 'none':
            return None
        if k == 'int':
            return ['int', draw(st.integers(1, n + 2))]
        a = draw(st.integers(-1, n))
        return ['range', a, draw(st.integers(a, n + 2))]
    t = case['t']
    np_, nf = len(t['rows']), t['f']
    if case['view']:
        np_ -= min(case['view'] & 1, np_ - 1)
        nf -= min(case['view'] >> 1, nf - 1)
    case.update({
        'points': limit(np_), 'features': limit(nf),
        'lines': draw(pick([None, 30, 4, 5, 6, 8, 12])),
        'width': draw(st.one_of(st.none(), st.just(79),
                                st.integers(30, 60))),
        'sig': draw(pick([3, 3, 0, 1, 6, None])),
        'column': draw(pick([19, 19, 4, 7, 12, 30])),
        'incp': draw(pick([True, True, False])),
        'incf': draw(pick([True, True, False])),
        'indent': draw(pick(['', '', ' ', '    '])),
        'quote': draw(pick([False, False, True]))})
    return case


def of_limit(x):
    if x is None:
        return None
    return range(x[1], x[2]) if x[0] == 'range' else x[1]


def check_printings(case, ctx):
    """
    toString with its limits: points or features are left out, or a name or
    value is longer than allowed, or a part is asked for
    """
    o, t = make(case)
    case = dict(case, points=of_limit(case['points']),
                features=of_limit(case['features']))
    before = snapshot(o)
    created = (o.points._namesCreated(), o.features._namesCreated())
    kw = {'points': case['points'], 'features': case['features'],
          'lineLimit': case['lines'], 'lineWidthLimit': case['width'],
          'sigDigits': case['sig'], 'columnWidthLimit': case['column'],
          'includePointNames': case['incp'],
          'includeFeatureNames': case['incf'], 'indent': case['indent'],
          'quoteNames': case['quote']}
    what = 'toString of %s %dx%d with %r' % (case['t']['type'], t.np, t.nf,
                                              kw)
    npts = t.np
    if isinstance(case['points'], range):
        npts = max(0, min(case['points'].stop, t.np)
                   - max(case['points'].start, 0))
    elif case['points'] is not None:
        npts = min(case['points'], t.np)
    rows = npts if case['lines'] is None else min(npts, case['lines'] - 2)
    total = t.np if not isinstance(case['points'], range) else npts
    try:
        text = o.toString(**kw)
    except N.InvalidArgumentValue:
        # one line cannot stand for several points
        ensure(rows <= 1 and total > rows, what, 'fails')
        ctx.label('too few lines')
        return
    ensure_same_snapshot(before, o, what)
    ensure(created == (o.points._namesCreated(), o.features._namesCreated()),
           what, 'creates names')
    g, h, hf = check_table(text, t, o, case, what, case['indent'])
    cut = any('\u2500' in x and x != HOLD for r in g.cells for x in r)
    ctx.nontrivial(h is not None or hf is not None or cut
                   or case['points'] is not None
                   or case['features'] is not None)
    ctx.label('points left out' if h is not None else 'all points',
              'features left out' if hf is not None else 'all features')


# ---- printed objects and axes -----------------------------------------------

def check_objects(case, ctx):
    """
    str, repr, show and the printed points and features of an object: it has
    names, missing values, or more than fits
    """
    o, t = make(case)
    before = snapshot(o)
    what = '%s %dx%d' % (case['t']['type'], t.np, t.nf)
    # the width of columns is chosen from the room
    default = {'any column': True, 'points': None, 'features': None, 'lines': 28, 'width': 79,
               'sig': 3, 'column': 10 ** 6, 'incp': True, 'incf': True,
               'quote': False}

    def table(text, indent='', **kw):
        lines = text.split('\n')
        title = '%dpt x %dft' % (t.np, t.nf)
        if o.name is not None:
            title = '"%s" ' % o.name + title
        ensure(lines[0] == title, what, 'title', lines[0], 'expected',
               title)
        lim = dict(default, **kw)
        body = '\n'.join(lines[1:])
        # the width of a column is chosen from the room: taken as seen
        g = Grid(body, indent, what) if t.nf else None
        if g:
            lim['column'] = max([8] + g.widths + [len(x) for x in g.labels])
        check_table(body, t, o, lim, what + ' printed', indent)
    table(str(o))
    r = repr(o)
    head = '<%s ' % o.getTypeString()
    ensure(r.startswith(head) and r.endswith('>'), what, 'repr', r)
    table(r[len(head):-1], ' ')
    s = case['show']
    with contextlib.redirect_stdout(io.StringIO()) as out:
        o.show(s['description'], of_limit(s['points']),
               of_limit(s['features']), includePointNames=s['incp'],
               includeFeatureNames=s['incf'], includeObjectName=s['incn'],
               **{k: s[k] for k in ('lineLimit', 'lineWidthLimit',
                                    'columnWidthLimit', 'sigDigits')
                  if s[k] != 'default'})
    text = out.getvalue()
    if s['description'] is not None:
        ensure(text.startswith(s['description'] + '\n'), what, 'shows',
               text)
        text = text[len(s['description']) + 1:]
    if not s['incn'] and o.name is not None:
        text = '"%s" ' % o.name + text
    ensure(text.endswith('\n\n'), what, 'end of show', text)
    over = 2 + (s['description'] is not None)
    lines = {'automatic': 30, 'default': 30}.get(s['lineLimit'],
                                                 s['lineLimit'])
    if s['points'] is not None and s['lineLimit'] in ('automatic',
                                                      'default'):
        lines = None
    width = {'automatic': 79, 'default': 79}.get(s['lineWidthLimit'],
                                                 s['lineWidthLimit'])
    if s['features'] is not None:
        width = None
    table(text[:-1], points=of_limit(s['points']),
          features=of_limit(s['features']), incp=s['incp'], incf=s['incf'],
          sig=3 if s['sigDigits'] == 'default' else s['sigDigits'],
          lines=None if lines is None else lines - over, width=width)
    # the axes
    for axis, names in (('point', t.pn), ('feature', t.fn)):
        ax = o.points if axis == 'point' else o.features
        check_axis(ax, axis, names, o, t, what)
    ensure_same_snapshot(before, o, what)
    ctx.nontrivial(t.np > 28 or t.nf > 9 or any(x for x in t.pn + t.fn)
                   or any(missing(v) for r in t.rows for v in r))
    ctx.label(case['t']['type'])


def check_axis(ax, axis, names, o, t, what):
    r = repr(ax)
    n = len(names)
    head = '< %d %ss\n' % (n, axis)
    ensure(r.startswith(head) and r.endswith(' >'), what, 'repr of', axis,
           r)
    s = str(ax)
    ensure(s == r[2:-2], what, 'str and repr differ')
    lines = r[len(head):-2].split('\n')[:-1]
    if not lines or not t.np or not t.nf:
        return
    what = '%s %ss printed as %s' % (what, axis, r)
    other = t.nf if axis == 'point' else t.np
    holds = [k for k, ln in enumerate(lines)
             if set(ln) <= set(' ' + BAR + '\u2500')
             and BAR in ln and not _empty(ln, names)]
    left = [k for k in range(len(lines)) if k not in holds]
    if not holds:
        ensure(len(lines) == n, what, 'has', len(lines), 'lines for', n)
        idx = list(range(n))
    else:
        ensure(len(holds) == 1, what, 'has', len(holds), 'marks')
        a, b = holds[0], len(lines) - holds[0] - 1
        ensure(a - b in (0, 1) and a + b < n, what, 'shows', a, b)
        idx = list(range(a)) + list(range(n - b, n))
    named = any(x is not None for x in names)
    for k, i in zip(left, idx):
        parts = lines[k].split(BAR)
        ensure(parts[0].strip() == str(i) or (named and len(parts) < 3),
               what, 'line', lines[k], 'for', i)
        vals = parts[-1]
        if named and len(parts) > 2:
            nm = parts[1].strip()
            full = names[i] if names[i] is not None else str(i)
            ensure(nm == full.strip() or (nm.endswith('\u2500')
                                          and full.startswith(nm[:-1])),
                   what, 'name', nm, 'for', full)
        toks = re.split(r' {2,}', vals.strip())
        # features are printed as points: ints can have become floats
        vals = [o[i, j] if axis == 'point' else o[j, i]
                for j in range(other)]
        want = [shown(v, 3) for v in vals]
        if axis == 'feature':
            want = [w if isinstance(v, (str, bool, np.bool_)) or not w
                    else (w, shown(float(v), 3))
                    for v, w in zip(vals, want)]
        # in order: a beginning, maybe a mark, an end
        toks = [x for x in toks if x]
        seq_ok(toks, want, what, i)


def _empty(ln, names):
    """A row of missing values of a point whose name is only marks."""
    return ln.split(BAR)[0].strip() != '' and False


def seq_ok(toks, want, what, i):
    want = [w if isinstance(w, tuple) else (w.strip(),) for w in want]
    full = [w for w in want if w != ('',)]
    if HOLD not in toks:
        ensure(len(toks) == len(full), what, 'row', i, 'shows', toks,
               'expected', want)
        pairs = list(zip(toks, full))
    else:
        h = toks.index(HOLD)
        # missing values are blank, so only the order can be followed
        pos = 0
        pairs = []
        for x in toks[:h]:
            pairs.append((x, full[pos]))
            pos += 1
        rest = toks[h + 1:]
        for x, w in zip(rest, full[len(full) - len(rest):] if rest else []):
            pairs.append((x, w))
    for x, w in pairs:
        ensure(any(x == u or (x.endswith('\u2500')
                              and u.startswith(x[:-1].rstrip()))
                   for u in w), what, 'row', i, 'shows', x, 'for', w)


@st.composite
def objects(draw):
    case = draw(tables())
    t = case['t']
    np_, nf = len(t['rows']), t['f']
    if case['view']:
        np_ -= min(case['view'] & 1, np_ - 1)
        nf -= min(case['view'] >> 1, nf - 1)

    def limit(n):
        k = draw(pick(['none', 'none', 'int', 'range']))
        if k == 'none':
            return None
        if k == 'int':
            return ['int', draw(st.integers(2, n + 2))]
        a = draw(st.integers(0, n))
        return ['range', a, draw(st.integers(a, n))]
    case['show'] = {
        'description': draw(pick([None, None, 'what it is'])),
        'points': limit(np_), 'features': limit(nf),
        'incp': draw(pick([True, True, False])),
        'incf': draw(pick([True, True, False])),
        'incn': draw(st.booleans()),
        'lineLimit': draw(pick(['default', 'automatic', None, 12, 20])),
        'lineWidthLimit': draw(pick(['default', 'automatic', None, 40, 60,
                                     100])),
        'columnWidthLimit': draw(pick(['default', 'automatic', 10, 19])),
        'sigDigits': draw(pick(['default', 3, 1]))}
    return case


TESTS = [
    Test('printings', printings(), check_printings, quick=5000,
         thorough=50000),
    Test('objects', objects(), check_objects, quick=3000, thorough=25000),
]
