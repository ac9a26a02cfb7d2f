"""C17: statistics equal their definitions."""
import collections
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import nimble
from lib.core import Test, Violation, ensure, missing, same, same_rows
from lib.data import (TYPES, Table, axis_of, build, ensure_consistent,
                      ensure_same_snapshot, ensure_table, ident, nan,
                      snapshot, sparse_ok, stirred, subset, tables)

N = nimble.exceptions
calc = nimble.calculate
KINDS = ('int', 'float', 'nan', 'bool', 'str', 'strnan', 'mixed')


class Refuse(Exception):
    pass


class Unclear(Exception):
    pass


# ---------------------------------------------------------------- definitions

def known(vec):
    return [v for v in vec if not missing(v)]


def exact(vec):
    """The known values as fractions; None when not numeric."""
    vals = known(vec)
    if any(isinstance(v, str) for v in vals):
        for v in vals:
            if isinstance(v, str):
                try:
                    float(v)
                except ValueError:
                    return None
        # all strings look like numbers
        raise Unclear
    return [Fraction(float(v)) for v in vals]


def percentile(vals, q):
    """Linear interpolation between the closest ranks."""
    vals = sorted(vals)
    at = Fraction(q, 100) * (len(vals) - 1)
    lo = int(at)
    hi = min(lo + 1, len(vals) - 1)
    return vals[lo] + (vals[hi] - vals[lo]) * (at - lo)


def numeric(f):
    def wrapped(vec):
        vals = exact(vec)
        if not vals:
            return nan
        r = f(vals)
        return nan if r is None else float(r)
    return wrapped


def var(vals, d=1):
    n = len(vals)
    if n - d <= 0:
        return None
    m = sum(vals) / n
    return sum((v - m) ** 2 for v in vals) / (n - d)


def root(x):
    return None if x is None else math.sqrt(x)


def med(vals):
    return percentile(vals, 50)


def mode(vec):
    vals = known(vec)
    if not vals:
        raise Refuse
    c = collections.Counter(vals)
    best = [v for v in c if c[v] == max(c.values())]
    if len({isinstance(v, str) for v in best}) > 1:
        raise Unclear
    return sorted(best)[(len(best) - 1) // 2]


def total(vec):
    vals = exact(vec)
    return nan if vals is None else float(sum(vals))


def quartiles(vec):
    if any(isinstance(v, (bool, np.bool_)) for v in vec):
        raise Unclear
    vals = exact(vec)
    if not vals:
        return (nan,) * 3
    return tuple(float(percentile(vals, q)) for q in (25, 50, 75))


DEFS = {
    'proportionMissing': lambda v: sum(map(missing, v)) / len(v),
    'proportionZero': lambda v: sum(not isinstance(x, str) and x == 0
                                    for x in v) / len(v),
    'minimum': numeric(min), 'maximum': numeric(max),
    'mean': numeric(lambda v: sum(v) / len(v)),
    'median': numeric(med), 'mode': mode,
    'variance': numeric(var),
    'standardDeviation': numeric(lambda v: root(var(v))),
    'populationVariance': numeric(lambda v: var(v, 0)),
    'populationStandardDeviation': numeric(lambda v: root(var(v, 0))),
    'medianAbsoluteDeviation': numeric(
        lambda v: med([abs(x - med(v)) for x in v])),
    'uniqueCount': lambda v: len(set(known(v))),
    'quartiles': quartiles, 'count': lambda v: len(known(v)),
    'sum': total,
}
CALLS = {k: getattr(calc, k, None) for k in DEFS}
CALLS['populationVariance'] = lambda v: calc.variance(v, sample=False)
CALLS['populationStandardDeviation'] = \
    lambda v: calc.standardDeviation(v, False)
# what statistics() calls them
STRINGS = {
    'max': 'maximum', 'mean': 'mean', 'median': 'median', 'min': 'minimum',
    'unique count': 'uniqueCount', 'uniqueCount': 'uniqueCount',
    'proportion missing': 'proportionMissing',
    'Proportion Zero': 'proportionZero',
    'standard deviation': 'standardDeviation', 'std': 'standardDeviation',
    'population std': 'populationStandardDeviation',
    'population standard deviation': 'populationStandardDeviation',
    'sample std': 'standardDeviation',
    'sample standard deviation': 'standardDeviation', 'count': 'count',
    'mode': 'mode', 'sum': 'sum', 'variance': 'variance',
    'median absolute deviation': 'medianAbsoluteDeviation',
    'quartiles': 'quartiles'}
METHODS = {
    'max': 'maximum', 'mean': 'mean', 'median': 'median', 'min': 'minimum',
    'uniqueCount': 'uniqueCount', 'proportionMissing': 'proportionMissing',
    'proportionZero': 'proportionZero',
    'standardDeviation': 'standardDeviation',
    'populationStandardDeviation': 'populationStandardDeviation',
    'mode': 'mode', 'sum': 'sum', 'variance': 'variance',
    'medianAbsoluteDeviation': 'medianAbsoluteDeviation',
    'quartiles': 'quartiles'}

numeric_kinds = st.sampled_from([('int', 'float', 'nan'), ('nan',),
                                 ('int',), ('float',), KINDS, KINDS,
                                 ('bool',), ('strnan',)])


@st.composite
def shifted(draw, **kw):
    """A table, sometimes with numbers far from zero."""
    t = draw(tables(kinds=draw(numeric_kinds), **kw))
    off = draw(st.sampled_from([0, 0, 0, 2 ** 27, -2 ** 20]))
    if off:
        t['rows'] = [[v + off if isinstance(v, (int, float))
                      and not isinstance(v, bool) else v for v in r]
                     for r in t['rows']]
    return t


def usable(case, rows):
    rtype = case['type']
    return 'DataFrame' if rtype == 'Sparse' and not sparse_ok(rows) else rtype


def agree(got, want, what):
    # relative to the values
    if isinstance(want, tuple):
        ok = len(got) == len(want) and all(
            same(g, w, 1e-9) for g, w in zip(got, want))
    else:
        ok = same(got, want, 1e-9)
    ensure(ok, what, 'is', got, 'expected', want)


vectors = st.fixed_dictionaries({
    'table': shifted(max_p=7, max_f=4), 'type': st.sampled_from(TYPES),
    'axis': st.sampled_from(['point', 'feature']),
    'i': st.integers(0, 9), 'k': st.integers(0, 7),
    'stat': st.sampled_from(sorted(DEFS)),
    'form': st.sampled_from(['view', 'copy', 'part'])})


def check_vector(case, ctx):
    """
    one function of nimble.calculate on a point or feature given as a view,
    a copy or a part of it; non-trivial = at least three values, not all
    equal
    """
    t = Table.of(case['table'])
    axis = case['axis']
    rtype = usable(case, t.rows)
    o = stirred(build(case['table'], rtype), case['k'])
    i = case['i'] % t.count(axis)
    vec = t.along(axis).rows[i]
    v = axis_of(o, axis)[i]
    if case['form'] == 'copy':
        v = v.copy()
    elif case['form'] == 'part' and len(vec) > 2:
        vec = vec[1:-1]
        v = o[i, 1:-2] if axis == 'point' else o[1:-2, i]
    name = case['stat']
    what = '%s(%s %s %s %r)' % (name, rtype, case['form'], axis, vec)
    before = snapshot(o)
    try:
        want = DEFS[name](vec)
    except Unclear:
        ctx.excluded('unclear')
        return
    except Refuse:
        try:
            got = CALLS[name](v)
        except N.NimbleException:
            return
        raise Violation(what + ' is %r' % (got,))
    got = CALLS[name](v)
    agree(got, want, what)
    ensure_same_snapshot(before, o, what)
    ctx.label(name)
    ctx.nontrivial(len(vec) > 2 and len(set(map(str, vec))) > 1)


axes = st.fixed_dictionaries({
    'table': shifted(), 'type': st.sampled_from(TYPES),
    'axis': st.sampled_from(['point', 'feature']), 'k': st.integers(0, 7),
    'how': st.sampled_from(['statistics', 'method', 'calculate']),
    'string': st.sampled_from(sorted(STRINGS)),
    'method': st.sampled_from(sorted(METHODS)),
    'view': st.booleans()})


def check_axis(case, ctx):
    """
    statistics of every point or feature, by statistics(), the method of that
    name or calculate(); non-trivial = at least two points or features with
    different results
    """
    t = Table.of(case['table'])
    axis = case['axis']
    rtype = usable(case, t.rows)
    if rtype == 'Sparse' and any(isinstance(v, bool) for v in t.rows[0]):
        # results that are partly bool and partly numbers cannot be held
        # (see C01-sparse-object)
        rtype = 'Matrix'
    o = stirred(build(case['table'], rtype), case['k'])
    if case['view']:
        o = o.view()
    a = axis_of(o, axis)
    how = case['how']
    if how == 'statistics':
        name, label = STRINGS[case['string']], case['string']
        call = lambda: a.statistics(label)
    else:
        label = case['method']
        name = METHODS[label]
        call = getattr(a, label) if how == 'method' else \
            (lambda: a.calculate(CALLS[name], useLog=False))
    what = '%s %r %ss %s %s' % (rtype, t, axis, how, label)
    before = snapshot(o)
    u = t.along(axis)
    try:
        want = [DEFS[name](r) for r in u.rows]
    except Unclear:
        ctx.excluded('unclear')
        return
    except Refuse:
        try:
            got = call()
        except N.NimbleException:
            return
        raise Violation(what + ' was not refused')
    if rtype == 'Sparse' and not sparse_ok([want]):
        ctx.excluded('sparse')
        return
    got = call()
    want = [list(w) if isinstance(w, tuple) else [w] for w in want]
    ensure_table(got, Table.back(Table(want, u.pn, None, len(want[0])), axis),
                 what, tol=1e-9, names=False, rtype=rtype)
    ensure(axis_of(got, axis).getNames() == u.pn, what, 'names',
           axis_of(got, axis).getNames())
    if how != 'calculate':
        off = axis_of(got, 'feature' if axis == 'point' else 'point')
        clean = ''.join(label.lower().split())
        if name == 'quartiles':
            ensure(off.getNames() == ['quartile1', 'quartile2', 'quartile3'],
                   what, 'result names', off.getNames())
        elif how == 'statistics':
            ensure(off.getNames() == [clean], what, 'result names',
                   off.getNames())
        else:
            ensure(len(off.getNames()) == 1 and off.getNames()[0].lower()
                   == clean, what, 'result names', off.getNames())
    ensure_consistent(got, what)
    ensure_same_snapshot(before, o, what)
    ctx.label(how, name)
    ctx.nontrivial(len({str(w) for w in want}) > 1)


@st.composite
def group_cases(draw):
    t = draw(tables(kinds=('int', 'float', 'nan'), min_f=2, min_p=2, max_p=7))
    by = draw(st.integers(0, t['f'] - 1))
    vals = draw(st.lists(st.sampled_from(draw(st.sampled_from(
        [[1, 2], [0, 1, 5], [0.5, 1.0], [2]]))), min_size=len(t['rows']),
        max_size=len(t['rows'])))
    for r, v in zip(t['rows'], vals):
        r[by] = v
    return {'table': t, 'by': by, 'type': draw(st.sampled_from(TYPES)),
            'spell': draw(st.integers(0, 1)), 'k': draw(st.integers(0, 7)),
            'how': draw(st.sampled_from(['statistics', 'method', 'group'])),
            'string': draw(st.sampled_from(sorted(STRINGS))),
            'method': draw(st.sampled_from(sorted(METHODS)))}


def check_groups(case, ctx):
    """
    feature statistics within the groups given by a feature, by each way to
    ask for them; non-trivial = at least two groups
    """
    t = Table.of(case['table'])
    by = case['by']
    rtype = usable(case, t.rows)
    o = stirred(build(case['table'], rtype), case['k'])
    key = ident(t.fn, by, case['spell'], t.nf)
    how = case['how']
    if how == 'method':
        label = case['method']
        name = METHODS[label]
        call = lambda: getattr(o.features, label)(groupByFeature=key)
    else:
        label = case['string']
        name = STRINGS[label]
        if how == 'statistics':
            call = lambda: o.features.statistics(label, groupByFeature=key)
        else:
            call = lambda: o.groupByFeature(key, calculate=label,
                                            useLog=False)
    what = '%s %r %s %s by %r' % (rtype, t, how, label, key)
    groups = {}
    for i, r in enumerate(t.rows):
        groups.setdefault(r[by], []).append(i)
    before = snapshot(o)
    want = {}
    refuse = False
    for g, idx in groups.items():
        part = t.take('point', idx).drop('feature', [by])
        try:
            want[g] = [DEFS[name](c) for c in part.cols()]
        except Refuse:
            refuse = True
        except Unclear:
            ctx.excluded('unclear')
            return
    if refuse:
        try:
            call()
        except N.NimbleException:
            return
        raise Violation(what + ' was not refused')
    got = call()
    ensure(set(got) == set(want) and list(got) == list(want), what, 'groups',
           list(got), 'expected', list(want))
    fn = [x for j, x in enumerate(t.fn) if j != by]
    for g in want:
        w = [list(x) if isinstance(x, tuple) else [x] for x in want[g]]
        ensure_table(got[g], Table(w, None, None, len(w[0])).T(),
                     '%s: %r' % (what, g), tol=1e-9, names=False)
        ensure(got[g].features.getNames() == fn, what, 'feature names',
               got[g].features.getNames())
    ensure_same_snapshot(before, o, what)
    ctx.label(how, name)
    ctx.nontrivial(len(want) > 1)


sims = st.fixed_dictionaries({
    'table': tables(kinds=('int', 'float', 'nan'), max_p=6, max_f=6),
    'type': st.sampled_from(TYPES), 'k': st.integers(0, 7),
    'axis': st.sampled_from(['point', 'feature']),
    'off': st.sampled_from([0, 0, 2 ** 20]),
    'what': st.sampled_from(['correlation', 'covariance', 'dot product',
                             'sample covariance', 'population covariance']),
    'direct': st.booleans()})


def check_similarities(case, ctx):
    """
    similarities of points or features and the functions behind them, with
    missing values left out pairwise; non-trivial = at least two vectors with
    at least three common values
    """
    t = Table.of(case['table'])
    if case['off']:
        t.rows = [[v + case['off'] for v in r] for r in t.rows]
    axis, kind = case['axis'], case['what']
    direct = case['direct'] and kind != 'dot product'
    if direct:
        axis = 'point'
    u = t.along(axis)
    if kind == 'dot product' and (any(missing(v) for r in t.rows for v in r)
                                  or case['off']):
        ctx.excluded('missing')
        return
    rtype = case['type']
    o = stirred(build({'rows': t.rows, 'pn': t.pn, 'fn': t.fn, 'f': t.nf},
                      rtype), case['k'])
    what = '%s of %ss of %s %r' % (kind, axis, rtype, t)
    want = []
    for a in u.rows:
        row = []
        for b in u.rows:
            if kind == 'dot product':
                row.append(sum(x * y for x, y in zip(a, b)))
                continue
            both = [(Fraction(x), Fraction(y)) for x, y in zip(a, b)
                    if not missing(x) and not missing(y)]
            n = len(both)
            d = n if kind in ('population covariance', 'correlation') \
                else n - 1
            if n == 0 or d == 0:
                row.append(nan)
                continue
            mx = sum(x for x, _ in both) / n
            my = sum(y for _, y in both) / n
            c = sum((x - mx) * (y - my) for x, y in both) / d
            if kind == 'correlation':
                vx = sum((x - mx) ** 2 for x, _ in both) / n
                vy = sum((y - my) ** 2 for _, y in both) / n
                if not vx or not vy:
                    row.append(nan)
                    continue
                row.append(float(c) / math.sqrt(vx) / math.sqrt(vy))
            else:
                row.append(float(c))
        want.append(row)
    before = snapshot(o)
    if direct:
        f = calc.correlation if kind == 'correlation' else calc.covariance
        kw = {'sample': False} if kind == 'population covariance' else {}
        got = f(o, o.T, **kw) if case['k'] % 2 else f(o, **kw)
    else:
        got = axis_of(o, axis).similarities(kind)
    ensure_table(got, Table(want, u.pn, u.pn, u.np), what, tol=1e-7,
                 names=kind != 'dot product', rtype=rtype)
    ensure_consistent(got, what)
    # nothing is shared
    got.points.setNames(['new%d' % i for i in range(u.np)], useLog=False)
    if kind != 'dot product':
        ensure(got.features.getNames() == u.pn, what, 'shares names')
    ensure_same_snapshot(before, o, what)
    ctx.label(kind)
    ctx.nontrivial(u.np > 1 and all(sum(not missing(v) for v in r) > 2
                                    for r in u.rows))


reports = st.fixed_dictionaries({
    'table': shifted(), 'type': st.sampled_from(TYPES),
    'k': st.integers(0, 7), 'view': st.booleans(),
    'stats': st.lists(st.sampled_from(
        ['mean', 'mode', 'minimum', 'Q1', 'median', 'Q3', 'maximum',
         'uniqueCount', 'count', 'standardDeviation']), unique=True,
        max_size=5), 'all': st.booleans(), 'extra': st.integers(0, 2)})


def check_report(case, ctx):
    """
    features.report with all or chosen statistics and extra functions, and
    report of the whole object; non-trivial = at least two features
    """
    t = Table.of(case['table'])
    rtype = usable(case, t.rows)
    o = stirred(build(case['table'], rtype), case['k'])
    if case['view']:
        o = o.view()
    what = 'report of %s %r' % (rtype, t)
    before = snapshot(o)
    stats = ['mean', 'mode', 'minimum', 'Q1', 'median', 'Q3', 'maximum',
             'uniqueCount', 'count', 'standardDeviation'] \
        if case['all'] else case['stats']
    extra = [calc.proportionMissing, calc.proportionZero][:case['extra']]
    want = []
    cols = ['index'] + list(stats) + [f.__name__ for f in extra]
    try:
        for j, c in enumerate(t.cols()):
            row = [j]
            for s in stats + [f.__name__ for f in extra]:
                try:
                    if s in ('Q1', 'Q3', 'median'):
                        row.append(quartiles(c)[('Q1', 'median',
                                                 'Q3').index(s)])
                    else:
                        row.append(DEFS[s](c))
                except Refuse:
                    row.append(nan)
            want.append(row)
    except Unclear:
        ctx.excluded('unclear')
        return
    if case['all']:
        rep = o.features.report(extraStatisticFunctions=extra, dtypes=False,
                                useLog=False)
    else:
        rep = o.features.report(stats, extra, dtypes=False, useLog=False)
    ensure_table(rep, Table(want, t.fn, cols, len(cols)), what, tol=1e-9)
    rep = o.report(useLog=False)
    flat = [v for r in t.rows for v in r]
    row = [len(flat), t.np, t.nf, DEFS['proportionZero'](flat),
           DEFS['proportionMissing'](flat)]
    ensure_table(rep, Table([row], None, ['Values', 'Points', 'Features',
                                          'proportionZero',
                                          'proportionMissing'], 5), what,
                 tol=1e-9)
    ensure_same_snapshot(before, o, what)
    ctx.label(rtype)
    ctx.nontrivial(t.nf > 1 and t.np > 1)


@st.composite
def pair_cases(draw):
    n = draw(st.integers(2, 8))
    f = draw(st.integers(1, 3))
    num = st.sampled_from([0.0, 1.0, 0.5, -0.25, 2.5, -1.5, 3.0, 4.75, 7.0])
    col = st.lists(num, min_size=n, max_size=n)
    return {'known': draw(col), 'pred': draw(col),
            'controls': draw(st.lists(col, min_size=f, max_size=f)),
            'types': draw(st.tuples(*[st.sampled_from(TYPES)] * 2)),
            'conf': draw(st.sampled_from([0.95, 0.95, 0.5, 0.99])),
            'which': draw(st.sampled_from(['rmse', 'mae', 'fi',
                                           'residuals']))}


def check_pairs(case, ctx):
    """
    confidence intervals of errors and residuals of a linear model;
    non-trivial = at least three points with some error
    """
    n = len(case['known'])
    ka, pb = case['known'], case['pred']
    k = nimble.data([[v] for v in ka], returnType=case['types'][0],
                    useLog=False)
    p = nimble.data([[v] for v in pb], returnType=case['types'][1],
                    useLog=False)
    which = case['which']
    what = '%s of %r and %r' % (which, ka, pb)
    before = snapshot(k), snapshot(p)
    if which == 'residuals':
        c = nimble.data([list(r) for r in zip(*case['controls'])],
                        returnType=case['types'][1], useLog=False)
        t = nimble.data([[a, b] for a, b in zip(ka, pb)],
                        returnType=case['types'][0],
                        featureNames=['a', 'b'], useLog=False)
        c0, t0 = snapshot(c), snapshot(t)
        got = calc.residuals(t, c)
        ensure_same_snapshot(c0, c, what)
        ensure_same_snapshot(t0, t, what)
        R = np.array(got.copy('pythonlist'), dtype=float)
        X = np.column_stack([np.array(case['controls']).T, np.ones(n)])
        Y = np.array([[a, b] for a, b in zip(ka, pb)])
        ensure(R.shape == Y.shape, what, 'shape', R.shape)
        ensure(np.allclose(X.T @ R, 0, atol=1e-7), what, 'with',
               case['controls'], 'not orthogonal', R.tolist())
        fit = Y - R
        proj = X @ np.linalg.pinv(X) @ fit
        ensure(np.allclose(proj, fit, atol=1e-6), what, 'with',
               case['controls'], 'not a linear fit', R.tolist())
        ensure(got.features.getNames() == ['a', 'b'], what, 'names')
    else:
        from scipy import stats
        f = {'rmse': calc.rootMeanSquareErrorConfidenceInterval,
             'mae': calc.meanAbsoluteErrorConfidenceInterval,
             'fi': calc.fractionIncorrectConfidenceInterval}[which]
        err = [{'rmse': (a - b) ** 2, 'mae': abs(a - b),
                'fi': float(a != b)}[which] for a, b in zip(ka, pb)]
        m = sum(err) / n
        if which == 'fi':
            sd = math.sqrt(m * (1 - m))
        else:
            sd = math.sqrt(sum((e - m) ** 2 for e in err) / (n - 1))
        half = stats.t.ppf(1 - (1 - case['conf']) / 2, n - 1) * sd \
            / math.sqrt(n)
        want = [m - half, m + half]
        if which == 'rmse':
            want = [math.sqrt(w) if w >= 0 else nan for w in want]
        if case['conf'] == 0.95:
            got = f(k, p)
        else:
            got = f(k, p, confidence=case['conf'])
        agree(tuple(got), tuple(want), what)
        ensure_same_snapshot(before[0], k, what)
        ensure_same_snapshot(before[1], p, what)
    ctx.label(which)
    ctx.nontrivial(n > 2 and ka != pb)


wholes = st.fixed_dictionaries({
    'table': shifted(), 'type': st.sampled_from(TYPES),
    'k': st.integers(0, 7), 'view': st.integers(0, 3),
    'method': st.sampled_from(sorted(set(METHODS) - {
        'standardDeviation', 'populationStandardDeviation'}))})


def check_whole(case, ctx):
    """
    a statistic of every element of an object, by the method of that name;
    non-trivial = at least two points and features
    """
    t = Table.of(case['table'])
    if not t.np * t.nf:
        return
    rtype = usable(case, t.rows)
    o = stirred(build(case['table'], rtype), case['k'])
    if case['view'] == 1:
        o = o.view()
    elif case['view'] == 2 and t.np > 1 and t.nf > 1:
        o = o.view(1, None, 0, t.nf - 2)
        t = t.take('point', range(1, t.np)).take('feature',
                                                 range(t.nf - 1))
    label = case['method']
    name = METHODS[label]
    vals = [v for r in t.rows for v in r]
    what = '%s %r %s()' % (o.getTypeString(), t, label)
    before = snapshot(o)
    if any(isinstance(v, (bool, np.bool_)) for v in vals):
        ctx.excluded('booleans')
        return
    text = any(isinstance(v, str) for v in vals)
    try:
        want = DEFS[name](vals)
    except Unclear:
        ctx.excluded('unclear')
        return
    except Refuse:
        try:
            got = getattr(o, label)()
        except N.NimbleException:
            return
        raise Violation(what + ' is %r' % (got,))
    got = getattr(o, label)()
    if text and label not in ('mode', 'proportionMissing', 'proportionZero',
                              'uniqueCount'):
        # of a part that is not numeric
        want = nan
    agree(got, want, what)
    ensure_same_snapshot(before, o, what)
    ctx.label(label)
    ctx.nontrivial(t.np > 1 and t.nf > 1)


TESTS = [Test('vector', vectors, check_vector, quick=9000),
         Test('axis', axes, check_axis, quick=6000),
         Test('groups', group_cases(), check_groups, quick=1500),
         Test('similarities', sims, check_similarities, quick=2500),
         Test('report', reports, check_report, quick=1200),
         Test('pairs', pair_cases(), check_pairs, quick=2000),
         Test('whole', wholes, check_whole, quick=3000)]
