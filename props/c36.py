"""C36: plots draw the data they describe."""
import contextlib
import io
import math
import os
import shutil
import tempfile
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt             # noqa: E402
import numpy as np                          # noqa: E402
from hypothesis import strategies as st     # noqa: E402

import nimble                               # noqa: E402
from lib.core import Test, ensure           # noqa: E402
from lib.data import (TYPES, build, ensure_same_snapshot, names, rows_of,  # noqa: E402
                      snapshot, nan)

pick = st.sampled_from
ints = st.integers(-6, 9)
quarters = st.integers(-20, 40).map(lambda v: v / 4)
GROUPS = {'str': ['u', 'v', 'w x', 'long label 1234567890'],
          'int': [0, 1, 2, 7], 'float': [0.5, 1.0, -2.25]}


@contextlib.contextmanager
def canvas():
    """No figures before or after, and none is kept for an id."""
    plt.close('all')
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        try:
            yield
        finally:
            # forgets the figures of the ids
            nimble.data([[1, 2]], useLog=False).plotFeatureDistribution(0)
            plt.close('all')


@contextlib.contextmanager
def folder():
    path = tempfile.mkdtemp()
    try:
        yield path
    finally:
        shutil.rmtree(path)


def near(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(
        np.all((np.abs(a - b) <= 1e-9 * (1 + np.abs(b)))
               | (np.isnan(a) & np.isnan(b))))


def spell(fn, j, how, n):
    if how == 1 and fn and fn[j] is not None:
        return fn[j]
    return j - n if how == 2 else j


def shown(fn, j, n, axis='Feature'):
    """The texts that can stand for a feature."""
    if fn and fn[j] is not None:
        return [fn[j]]
    return ['%s #%d' % (axis, j), '%s #%d' % (axis, j - n)]


def points_of(line):
    return np.column_stack([np.asarray(line.get_xdata(orig=True), float),
                            np.asarray(line.get_ydata(orig=True), float)])


def bars_of(ax, horizontal):
    """(centre, width, height) of the bars, in the order drawn."""
    out = []
    for c in ax.containers:
        if not isinstance(c, matplotlib.container.BarContainer):
            continue
        bars = []
        for p in c.patches:
            x, y, w, h = p.get_x(), p.get_y(), p.get_width(), p.get_height()
            if horizontal:
                x, y, w, h = y, x, h, w
            ensure(y == 0, 'a bar begins at', y)
            bars.append((x + w / 2, w, h))
        out.append((c.get_label(), bars))
    return out


def tick_texts(ax, horizontal, what):
    axis = ax.yaxis if horizontal else ax.xaxis
    pos = list(axis.get_ticklocs())
    ensure(near(pos, range(1, len(pos) + 1)), what, 'ticks at', pos)
    return [t.get_text() for t in axis.get_ticklabels()]


def check_texts(ax, case, what, default, defaultx, defaulty):
    """The title and labels, given ones or the ones of the data."""
    for got, given, alts, kind in (
            (ax.get_title(), case['title'], default, 'title'),
            (ax.get_xlabel(), case['xlabel'], defaultx, 'x label'),
            (ax.get_ylabel(), case['ylabel'], defaulty, 'y label')):
        if given is False:
            ensure(got == '', what, kind, got)
        elif given is not True:
            ensure(got == given, what, kind, got)
        elif alts is not None:
            # every part has one of several spellings
            for part in alts:
                ensure(any(str(s) in got for s in part), what, kind, got,
                       'lacks', part)


@st.composite
def texts(draw):
    return {'title': draw(pick([True, True, True, False, 'my title'])),
            'xlabel': draw(pick([True, True, False, 'my x'])),
            'ylabel': draw(pick([True, True, False, 'my y']))}


@st.composite
def numeric(draw, min_p=1, max_p=8, min_f=2, max_f=5, missing=False):
    p, f = draw(st.integers(min_p, max_p)), draw(st.integers(min_f, max_f))
    val = draw(pick([ints, quarters]))
    if missing:
        val = st.one_of(val, val, val, st.just(nan))
    return {'rows': [[draw(val) for _ in range(f)] for _ in range(p)],
            'pn': draw(names(p)), 'fn': draw(names(f)), 'f': f,
            'type': draw(pick(TYPES)), 'name': draw(pick([None, 'thing']))}


def make(case, view=False):
    kw = {} if case.get('name') is None else {'name': case['name']}
    o = build(case, case['type'], **kw)
    return o.view() if view else o


def kwargs_of(case):
    return {'title': case['title'], 'xAxisLabel': case['xlabel'],
            'yAxisLabel': case['ylabel'], 'show': False}


# --------------------------------------------------------------------- scatter
@st.composite
def scatters(draw):
    case = draw(numeric())
    case.update(draw(texts()))
    f, p = case['f'], len(case['rows'])
    case['group'] = draw(st.one_of(st.none(), st.integers(0, f - 1)))
    if case['group'] is not None:
        kind = draw(pick(sorted(GROUPS)))
        if kind == 'str' and case['type'] == 'Sparse':
            case['type'] = 'Matrix'
        for r in case['rows']:
            r[case['group']] = draw(pick(GROUPS[kind]))
    others = [j for j in range(f) if j != case['group']]
    case['x'], case['y'] = draw(pick(others)), draw(pick(others))
    case['how'] = [draw(st.integers(0, 2)) for _ in range(3)]
    case['average'] = draw(st.one_of(st.none(), st.integers(1, 4)))
    case['trend'] = draw(pick([None, None, 'linear']))
    case['limits'] = {k: v for k, v in (
        ('xMin', -30), ('xMax', 50), ('yMin', -40), ('yMax', 60))
        if draw(st.booleans())} if draw(st.booleans()) else {}
    case['view'] = draw(st.booleans())
    return case


def check_scatter(case, ctx):
    """
    a feature against another one, also as a rolling average, grouped and with
    a trend; non-trivial = three or more marks are drawn
    """
    o = make(case, case['view'])
    before = snapshot(o)
    n, fn, rows = case['f'], case['fn'], case['rows']
    kw = kwargs_of(case)
    kw.update(case['limits'])
    x, y = (spell(fn, case[k], case['how'][i], n)
            for i, k in enumerate('xy'))
    g = case['group']
    if g is not None:
        kw['groupByFeature'] = spell(fn, g, case['how'][2], n)
    if case['trend']:
        kw['trend'] = case['trend']
    what = 'plotFeatureAgainstFeature(%r, %r, %r) of %s %r, names %r' % (
        x, y, kw, case['type'], rows, fn)
    groups = {}
    for r in rows:
        groups.setdefault(None if g is None else r[g], []).append(
            (r[case['x']], r[case['y']]))
    k = case['average']
    if case['trend'] and any(len({a for a, _ in v}) < 2
                             or k is not None and len(v) - k < 1
                             for v in groups.values()):
        del kw['trend']
    with canvas():
        if g is not None:
            kw['figureID'] = 'the figure'
        if k is None:
            o.plotFeatureAgainstFeature(x, y, **kw)
        else:
            what += ' average of %d' % k
            o.plotFeatureAgainstFeatureRollingAverage(
                x, y, sampleSizeForAverage=k, **kw)
        ensure(len(plt.get_fignums()) == 1, what, 'made',
               len(plt.get_fignums()), 'figures')
        ax = plt.gcf().axes[0]
        lines = list(ax.lines)
        per = 2 if 'trend' in kw else 1
        ensure(len(lines) == per * len(groups), what, 'drew', len(lines),
               'lines for', groups)
        total = 0
        for i, (key, pts) in enumerate(groups.items()):
            if k is not None:
                pts = sorted(pts, key=lambda t: t[0])
                xs = [a for a, _ in pts]
                if len(set(xs)) < len(xs):
                    pts = None          # the order of ties is not documented
                elif len(pts) < k:
                    pts = []
                else:
                    pts = [tuple(sum(q[c] for q in pts[s:s + k]) / k
                                 for c in (0, 1))
                           for s in range(len(pts) - k + 1)]
            got = points_of(lines[per * i])
            if pts is not None:
                total += len(pts)
                want = np.array(pts, dtype=float).reshape(-1, 2)
                ensure(near(got, want), what, 'group', key, 'drawn at',
                       got.tolist(), 'expected', want.tolist())
            if g is not None:
                texts_ = [t.get_text() for t in
                          ax.get_legend().get_texts()]
                ensure(any(t == str(key) or same_number(t, key)
                           for t in texts_), what, 'the legend is', texts_,
                       'for', list(groups))
                lab = lines[per * i].get_label()
                ensure(lab == str(key) or same_number(lab, key), what,
                       'the label is', lab, 'for', key)
            if per == 2:
                tx, ty = points_of(lines[per * i + 1]).T
                gx, gy = got.T
                if len(set(gx)) > 1:
                    slope, level = np.polyfit(gx, gy, 1)
                    ensure(np.allclose(ty, slope * tx + level, rtol=1e-6,
                                       atol=1e-6), what, 'the trend', tx, ty,
                           'for', got.tolist())
        for lim, (lo, hi) in (('x', ax.get_xlim()), ('y', ax.get_ylim())):
            if lim + 'Min' in kw:
                ensure(lo == kw[lim + 'Min'], what, lim, 'limits', lo, hi)
            if lim + 'Max' in kw:
                ensure(hi == kw[lim + 'Max'], what, lim, 'limits', lo, hi)
        nx, ny = (shown(fn, case[c], n) for c in 'xy')
        check_texts(ax, case, what, [nx, ny], [nx], [ny])
    ensure_same_snapshot(before, o, what)
    ctx.label('grouped' if g is not None else 'plain',
              'average' if k else 'values')
    ctx.nontrivial(total >= 3)


def same_number(text, v):
    try:
        return not isinstance(v, str) and float(text) == v
    except ValueError:
        return False


# ------------------------------------------------------------------------ bars
def spread(vec):
    return max(vec) - min(vec)


def extremes(vec):
    """A vector of three statistics, along the axis of the one given."""
    out = [min(vec), max(vec), sum(vec)]
    if len(vec.points) == 1:
        return nimble.data([out], useLog=False)
    return nimble.data([[v] for v in out], useLog=False)


STATS = {'mean': lambda v: sum(v) / len(v), 'spread': lambda v: max(v) - min(v),
         'extremes': lambda v: [min(v), max(v), sum(v)]}


@st.composite
def barcharts(draw):
    case = draw(numeric(min_p=2, min_f=2, max_p=5))
    case.update(draw(texts()))
    case['axis'] = draw(pick(['point', 'feature']))
    case['kind'] = draw(pick(['plot', 'plotMeans', 'mean', 'spread',
                              'extremes']))
    n = case['f'] if case['axis'] == 'feature' else len(case['rows'])
    case['chosen'] = draw(st.one_of(st.none(), st.lists(
        st.integers(0, n - 1), min_size=1, max_size=n, unique=True)))
    case['how'] = draw(st.lists(st.integers(0, 2), min_size=n, max_size=n))
    case['horizontal'] = draw(st.booleans())
    case['legend'] = draw(pick([None, 'the legend']))
    case['view'] = draw(st.booleans())
    return case


def t_error(vals):
    from scipy import stats
    m = sum(vals) / len(vals)
    sd = math.sqrt(sum((v - m) ** 2 for v in vals) / (len(vals) - 1))
    return abs(stats.t.ppf(0.975, len(vals) - 1)) * sd / math.sqrt(len(vals))


def check_errorbars(ax, means, errors, horizontal, what):
    cont = [c for c in ax.containers if isinstance(
        c, matplotlib.container.ErrorbarContainer)]
    ensure(len(cont) == 1, what, 'drew', len(cont), 'series')
    line, _, bars = cont[0]
    got = points_of(line)
    if horizontal:
        got = got[:, ::-1]
    want = [[i + 1, m] for i, m in enumerate(means)]
    ensure(near(got, want), what, 'means drawn at', got.tolist(), 'expected',
           want)
    segs = [np.asarray(s) for s in bars[0].get_segments()]
    ensure(len(segs) == len(means), what, 'drew', len(segs), 'intervals')
    for s, m, e in zip(segs, means, errors):
        lohi = sorted(s[:, 0 if horizontal else 1])
        ensure(near(lohi, [m - e, m + e]), what, 'interval', lohi,
               'expected', [m - e, m + e])


def check_multi(ax, case, what, want, labels, legend):
    """Bars for several series over the groups."""
    found = bars_of(ax, case['horizontal'])
    ensure(len(found) == len(want), what, 'drew', len(found), 'series',
           'expected', want)
    spans = {}
    for (lab, bars), heights, alts in zip(found, want, labels):
        ensure(near([b[2] for b in bars], heights), what, 'heights',
               [b[2] for b in bars], 'expected', heights)
        if len(want) > 1:
            ensure(any(lab == str(a) or same_number(lab, a) for a in alts),
                   what, 'series', lab, 'expected', alts)
        for i, (c, w, _) in enumerate(bars):
            spans.setdefault(i, []).append((c - w / 2, c + w / 2))
    for i, sp in spans.items():
        lo, hi = sp[0][0], sp[-1][1]
        ensure(abs((lo + hi) / 2 - (i + 1)) < 1e-6 and hi - lo < 1, what,
               'the bars of group', i, 'are at', sp)
        for a, b in zip(sp, sp[1:]):
            ensure(b[0] >= a[1] - 1e-9, what, 'bars overlap', sp)
    if len(want) > 1:
        leg = ax.get_legend()
        ensure(leg is not None, what, 'no legend')
        if legend is not None:
            ensure(any(leg.get_title().get_text() == s for s in legend),
                   what, 'legend title', leg.get_title().get_text(), legend)


def check_bars(case, ctx):
    """
    values, means and statistics of points or features as bars; non-trivial =
    two or more groups
    """
    o = make(case, case['view'])
    before = snapshot(o)
    feat = case['axis'] == 'feature'
    rows = case['rows']
    lines = list(map(list, zip(*rows))) if feat else rows
    nm, onm = (case['fn'], case['pn']) if feat else (case['pn'], case['fn'])
    n = len(lines)
    chosen = case['chosen']
    ids = None if chosen is None else [
        spell(nm, j, case['how'][j], n) for j in chosen]
    use = list(range(n)) if chosen is None else chosen
    axis = o.features if feat else o.points
    kw = kwargs_of(case)
    kw['horizontal'] = case['horizontal']
    kw[case['axis'] + 's'] = ids
    kind = case['kind']
    if kind != 'plotMeans':
        kw['legendTitle'] = case['legend']
    what = '%ss.%s %r of %s %r, names %r' % (
        case['axis'], kind, kw, case['type'], rows, nm)
    with canvas():
        if kind in ('plot', 'plotMeans'):
            getattr(axis, kind)(**kw)
        else:
            axis.plotStatistics({'mean': nimble.calculate.mean,
                                 'spread': spread,
                                 'extremes': extremes}[kind], **kw)
        ax = plt.gcf().axes[0]
        vals = [lines[j] for j in use]
        if kind == 'plotMeans':
            if case['view'] and len(o.points) == 0:
                return
            check_errorbars(ax, [sum(v) / len(v) for v in vals],
                            [t_error(v) for v in vals], case['horizontal'],
                            what)
        elif kind in ('mean', 'spread'):
            check_multi(ax, case, what, [[STATS[kind](v) for v in vals]],
                        [[None]], None)
        elif kind == 'extremes':
            series = list(zip(*[STATS[kind](v) for v in vals]))
            check_multi(ax, case, what, series, [
                ['Point #%d' % i, 'Feature #%d' % i, i] for i in range(3)],
                [case['legend'] or ''])
        else:
            m = len(vals[0])
            other = 'Point' if feat else 'Feature'
            check_multi(ax, case, what, list(zip(*vals)),
                        [shown(onm, i, m, other) + [i] for i in range(m)],
                        [case['legend'] or ''])
        got = tick_texts(ax, case['horizontal'], what)
        ensure(len(got) == len(use), what, 'labels', got)
        for t, j in zip(got, use):
            ensure(t in shown(nm, j, n, case['axis'].capitalize()), what,
                   'labels', got, 'for', use)
        check_texts(ax, case, what, None, None, None)
    ensure_same_snapshot(before, o, what)
    ctx.label(kind, case['axis'])
    ctx.nontrivial(len(use) >= 2)


# ---------------------------------------------------------------------- groups
@st.composite
def groupings(draw):
    case = draw(numeric(min_p=2, max_p=9, min_f=2, max_f=4))
    case.update(draw(texts()))
    f = case['f']
    order = draw(st.permutations(range(f)))
    case['group'], case['feature'] = order[0], order[1]
    case['sub'] = draw(st.one_of(st.none(), st.just(
        order[2] if f > 2 else order[1])))
    gk = draw(pick(sorted(GROUPS)))
    pool = GROUPS[gk][:draw(st.integers(1, 4))]
    for r in case['rows']:
        r[case['group']] = draw(pick(pool))
        if case['sub'] not in (None, case['feature']):
            r[case['sub']] = draw(pick([0, 1, 3][:draw(st.integers(1, 3))]))
    if gk == 'str' and case['type'] == 'Sparse':
        case['type'] = 'DataFrame'
    case['stat'] = draw(pick(['mean', 'spread', 'means']))
    if case['stat'] == 'means':
        case['sub'] = None
    case['how'] = [draw(st.integers(0, 2)) for _ in range(3)]
    case['horizontal'] = draw(st.booleans())
    case['view'] = draw(st.booleans())
    return case


def check_groups(case, ctx):
    """
    a statistic of each group and subgroup of a feature as bars; non-trivial =
    two or more groups
    """
    o = make(case, case['view'])
    before = snapshot(o)
    n, fn, rows = case['f'], case['fn'], case['rows']
    g, f, s = case['group'], case['feature'], case['sub']
    gi, fi = spell(fn, g, case['how'][0], n), spell(fn, f, case['how'][1], n)
    kw = kwargs_of(case)
    kw['horizontal'] = case['horizontal']
    groups = {}
    for r in rows:
        groups.setdefault(r[g], []).append(r)
    what = '%s of %r by %r, %r, of %s %r, names %r' % (
        case['stat'], fi, gi, kw, case['type'], rows, fn)
    with canvas():
        if case['stat'] == 'means':
            if any(len(v) < 2 for v in groups.values()):
                return
            o.plotFeatureGroupMeans(fi, gi, **kw)
        else:
            if s is not None:
                kw['subgroupFeature'] = spell(fn, s, case['how'][2], n)
                what += ' and %r' % (kw['subgroupFeature'],)
            o.plotFeatureGroupStatistics(
                {'mean': nimble.calculate.mean, 'spread': spread}[
                    case['stat']], fi, gi, **kw)
        ax = plt.gcf().axes[0]
        if case['stat'] == 'means':
            vals = [[r[f] for r in v] for v in groups.values()]
            check_errorbars(ax, [sum(v) / len(v) for v in vals],
                            [t_error(v) for v in vals], case['horizontal'],
                            what)
        elif s is None:
            check_multi(ax, case, what, [[
                STATS[case['stat']]([r[f] for r in v])
                for v in groups.values()]], [[None]], None)
        else:
            subs = []
            for v in groups.values():
                for r in v:
                    if r[s] not in subs:
                        subs.append(r[s])
            want = []
            for w in subs:
                want.append([])
                for v in groups.values():
                    vals = [r[f] for r in v if r[s] == w]
                    want[-1].append(STATS[case['stat']](vals) if vals else 0)
            check_multi(ax, case, what, want, [[w] for w in subs],
                        shown(fn, s, n))
        got = tick_texts(ax, case['horizontal'], what)
        ensure(len(got) == len(groups) and all(
            t == str(k) or same_number(t, k) for t, k in zip(got, groups)),
            what, 'labels', got, 'for', list(groups))
        check_texts(ax, case, what, [shown(fn, f, n)], None, None)
    ensure_same_snapshot(before, o, what)
    ctx.label(case['stat'], 'subgroups' if s is not None else 'groups')
    ctx.nontrivial(len(groups) >= 2)


# --------------------------------------------------------------- distributions
@st.composite
def distributions(draw):
    case = draw(numeric(max_p=12, missing=True))
    case.update(draw(texts()))
    case['feature'] = draw(st.integers(0, case['f'] - 1))
    case['how'] = draw(st.integers(0, 2))
    case['words'] = draw(st.integers(0, 3)) == 0
    if case['words']:
        if case['type'] == 'Sparse':
            case['type'] = 'List'
        for r in case['rows']:
            r[case['feature']] = draw(pick(['a', 'b', 'cc', 'd']))
    case['bins'] = draw(pick([None, None, 3, 7]))
    case['heat'] = draw(st.integers(0, 3)) == 0
    if case['heat'] and draw(st.booleans()):
        case['rows'] = [[draw(st.booleans()) for _ in range(case['f'])]
                        for _ in case['rows']]
        case['words'] = False
    case['colorbar'] = draw(st.booleans())
    case['view'] = draw(st.booleans())
    return case


def quartile(vals, q):
    vals = sorted(vals)
    k = q * (len(vals) - 1)
    lo, hi = math.floor(k), math.ceil(k)
    return vals[lo] + (vals[hi] - vals[lo]) * (k - lo)


def check_distribution(case, ctx):
    """
    histograms and heat maps; non-trivial = three or more known values
    """
    o = make(case, case['view'])
    before = snapshot(o)
    exact = repr(rows_of(o))
    j = case['feature']
    vals = [r[j] for r in case['rows']]
    known = [v for v in vals if v == v]
    kw = kwargs_of(case)
    if case['heat']:
        if case['words']:
            return
        what = 'plotHeatMap(%r) of %s %r' % (kw, case['type'], case['rows'])
        with canvas():
            o.plotHeatMap(includeColorbar=case['colorbar'], **kw)
            fig = plt.gcf()
            img = fig.axes[0].images[0]
            got = np.ma.filled(img.get_array().astype(float), nan)
            ensure(near(got, np.array(case['rows'], dtype=float)), what,
                   'draws', got.tolist())
            ensure(len(fig.axes) == 1 + case['colorbar'], what, 'has',
                   len(fig.axes), 'axes')
            if not isinstance(case['title'], str) and case['title']:
                ensure(fig.axes[0].get_title() == (o.name or ''), what,
                       'title', fig.axes[0].get_title())
            elif case['title']:
                ensure(fig.axes[0].get_title() == case['title'], what, 'title',
                       fig.axes[0].get_title())
        ensure_same_snapshot(before, o, what)
        ensure(repr(rows_of(o)) == exact, what, 'changed', exact, 'to',
               rows_of(o))
        ctx.label('heat map')
        ctx.nontrivial(len(vals) >= 3)
        return
    if not known:
        return
    if case['bins']:
        kw['bins'] = case['bins']
    ident = spell(case['fn'], j, case['how'], case['f'])
    what = 'plotFeatureDistribution(%r, %r) of %s %r' % (
        ident, kw, case['type'], case['rows'])
    with canvas():
        o.plotFeatureDistribution(ident, **kw)
        ax = plt.gcf().axes[0]
        bars = [(p.get_x(), p.get_width(), p.get_height())
                for p in ax.patches]
        ensure(sum(b[2] for b in bars) == len(known), what, 'counts',
               [b[2] for b in bars], 'of', known)
        if not case['words']:
            edges = [b[0] for b in bars] + [bars[-1][0] + bars[-1][1]]
            edges[0] -= 1e-9
            if min(known) != max(known):
                ensure(abs(edges[0] - min(known)) < 1e-8 and
                       abs(edges[-1] - max(known)) < 1e-9, what, 'edges',
                       edges)
            fuzzy = any(abs(v - e) < 1e-9 for v in known
                        for e in edges[1:-1])
            if not fuzzy:
                want = [sum(lo <= v < hi for v in known) for lo, hi in zip(edges, edges[1:])]
                # the last one has its upper edge
                want[-1] = len(known) - sum(want[:-1])
                ensure([b[2] for b in bars] == want, what, 'counts',
                       [b[2] for b in bars], 'expected', want)
            if case['bins']:
                ensure(len(bars) == case['bins'], what, len(bars), 'bins')
            else:
                width = 2 * (quartile(known, .75) - quartile(known, .25)) \
                    / len(known) ** (1 / 3)
                ratio = (max(known) - min(known)) / width if width else 1
                if not width or abs(ratio - round(ratio)) > 1e-6:
                    ensure(len(bars) == math.ceil(ratio), what, len(bars),
                           'bins, expected', math.ceil(ratio))
        else:
            got = sorted(b[2] for b in bars if b[2])
            if not case['bins']:
                want = sorted(known.count(v) for v in set(known))
                ensure(got == want, what, 'counts', got, 'expected', want)
        nm = shown(case['fn'], j, case['f'])
        check_texts(ax, case, what, [[nm[0].split('Feature ')[-1]]],
                    [['Values']], [['Number of Values']])
    ensure_same_snapshot(before, o, what)
    ctx.label('histogram', 'words' if case['words'] else 'numbers')
    ctx.nontrivial(len(known) >= 3)


# --------------------------------------------------------------------- figures
@st.composite
def sequences(draw):
    steps = [{'id': draw(pick([None, 'a', 'b', 'b', 3])),
              'kind': draw(pick(['scatter', 'scatter', 'bars', 'means',
                                 'histogram'])),
              'save': draw(pick([None, None, 'plot.png', 'plot', 'p.pdf'])),
              'show': draw(st.integers(0, 4)) == 0}
             for _ in range(draw(st.integers(2, 5)))]
    return {'rows': [[draw(ints) for _ in range(2)] for _ in range(4)],
            'fn': None, 'pn': None, 'f': 2, 'type': draw(pick(TYPES)),
            'steps': steps}


def drawn(fig):
    ax = fig.axes[0]
    return (len(ax.lines), len(ax.patches), len(ax.containers))


ADDS = {'scatter': (1, 0, 0), 'bars': (0, 2, 1), 'means': (5, 0, 1)}


def check_figures(case, ctx):
    """
    plots on new and earlier figures, shown and saved; non-trivial = a figure
    has more than one plot
    """
    o = make(case)
    more = False
    shows = []
    backend = plt._get_backend_mod()    # what plt.show uses
    real = backend.show
    with canvas(), folder() as at:
        backend.show = lambda *a, **k: shows.append(1)
        try:
            figs, paint = {}, {}
            for i, s in enumerate(case['steps']):
                what = 'step %d of %r' % (i, case['steps'])
                known = set(plt.get_fignums())
                prior = {n: drawn(plt.figure(n)) for n in known}
                cur = max(known) if known else None
                if cur is not None:
                    plt.figure(cur)
                kw = {'show': s['show'], 'figureID': s['id']}
                path = None
                if s['save']:
                    path = os.path.join(at, '%d%s' % (i, s['save']))
                    kw['outPath'] = path
                count = len(shows)
                if s['kind'] == 'scatter':
                    o.plotFeatureAgainstFeature(0, 1, **kw)
                elif s['kind'] == 'bars':
                    o.features.plotStatistics(nimble.calculate.mean, **kw)
                elif s['kind'] == 'means':
                    o.features.plotMeans(**kw)
                else:
                    o.plotFeatureDistribution(0, bins=3, **kw)
                ensure(len(shows) - count == int(s['show']), what, 'shown',
                       len(shows) - count, 'times')
                new = set(plt.get_fignums()) - known
                if s['id'] is not None and s['id'] in figs:
                    ensure(not new, what, 'made figures', new)
                    target = figs[s['id']]
                    more = True
                else:
                    ensure(len(new) == 1, what, 'made figures', new)
                    target = new.pop()
                    if s['id'] is not None:
                        figs[s['id']] = target
                for n in known - {target}:
                    ensure(drawn(plt.figure(n)) == prior[n], what,
                           'drew on figure', n)
                fig = plt.figure(target)
                was = prior.get(target, (0, 0, 0))
                if s['kind'] in ADDS:
                    want = tuple(a + b for a, b in zip(was, ADDS[s['kind']]))
                    ensure(drawn(fig)[:2] == want[:2] or
                           s['kind'] == 'means', what, 'figure has',
                           drawn(fig), 'expected', want)
                ensure(drawn(fig) != was, what, 'drew nothing')
                if path:
                    ensure(os.path.exists(path), what, 'saved nothing')
                    with open(path, 'rb') as f:
                        data = f.read()
                    if s['save'] == 'p.pdf':
                        ensure(data[:4] == b'%PDF', what, 'not a pdf')
                    else:
                        buf = io.BytesIO()
                        fig.savefig(buf, format='png')
                        got, want = plt.imread(io.BytesIO(data)), \
                            plt.imread(io.BytesIO(buf.getvalue()))
                        ensure(got.shape == want.shape and np.array_equal(
                            got[0, 0], paint.get(target, want[0, 0])),
                            what, 'the file has another picture',
                            got[0, 0], paint.get(target))
                else:
                    ensure(len(os.listdir(at)) == sum(
                        bool(t['save']) for t in case['steps'][:i]), what,
                        'files', os.listdir(at))
                if s['id'] is not None and target not in paint:
                    # to recognize the figure in a file
                    level = (1 + len(paint)) * 51 / 255
                    fig.set_facecolor((level, 0.0, 1.0))
                    paint[target] = np.array([level, 0, 1, 1], dtype='f4')
                if s['show']:
                    # shown figures are complete
                    figs = {}
        finally:
            backend.show = real
    ctx.nontrivial(more)


TESTS = [Test('scatter', scatters(), check_scatter, quick=700),
         Test('bars', barcharts(), check_bars, quick=700),
         Test('groups', groupings(), check_groups, quick=500),
         Test('distribution', distributions(), check_distribution,
              quick=500),
         Test('figures', sequences(), check_figures, quick=120)]
