"""C13: grouping, uniqueness and counting partition the data."""
from hypothesis import strategies as st

import nimble
from lib.core import Test, Violation, ensure, missing, same
from lib.data import (Table, axis_of, build, ensure_consistent,
                      ensure_same_snapshot, ensure_table, nan, snapshot,
                      stirred, typed_tables)

inf = float('inf')
small = {'int': st.integers(0, 2), 'float': st.sampled_from(
    [0.0, 0.5, 1.0, 2.0]), 'nan': st.sampled_from([0.0, nan, 1.0, nan, 2.5]),
    'bool': st.booleans(), 'str': st.sampled_from(['a', 'b', 'aa', '0']),
    'strnan': st.sampled_from(['a', 'NaN', nan, 'b']),
    'mixed': st.sampled_from([0, 1, 'a', '1', nan, 2.5]),
    'inf': st.sampled_from([0.0, inf, 1.0, -inf])}


@st.composite
def grouped(draw, kinds=('int', 'float', 'nan', 'bool', 'str', 'strnan',
                         'mixed'), **kw):
    """A table whose columns repeat few values."""
    kw.setdefault('max_p', 7)
    kw.setdefault('max_f', 4)
    t = draw(typed_tables(kinds=kinds, **kw))
    p, f = len(t['rows']), t['f']
    if t['type'] == 'Sparse':
        isb = any(isinstance(v, bool) for r in t['rows'] for v in r)
        ks = ['bool'] if isb else [k for k in kinds + ('inf',) if k in (
            'int', 'float', 'nan', 'inf')]
    else:
        ks = list(kinds) + ['inf']
    for j in range(f):
        s = small[draw(st.sampled_from(ks))]
        for i in range(p):
            t['rows'][i][j] = draw(s)
    if draw(st.integers(0, 2)) == 0 and f > 1:
        # whole features repeat too
        a, b = draw(st.integers(0, f - 1)), draw(st.integers(0, f - 1))
        for i in range(p):
            t['rows'][i][a] = t['rows'][i][b]
    t['stir'] = draw(st.integers(0, 7))
    return t


@st.composite
def grouping(draw):
    t = draw(grouped())
    f = t['f']
    k = draw(st.integers(1, min(f, 3)))
    by = draw(st.permutations(range(f)))[:k]
    hows = [draw(st.integers(0, 2)) for _ in by]
    alone = k == 1 and draw(st.booleans())
    t.update(by=list(by), hows=hows, alone=alone,
             view=draw(st.integers(0, 3)) == 0)
    return t


def spell(t, j, how):
    if how == 1 and t.fn[j] is not None:
        return t.fn[j]
    if how == 2:
        return j - t.nf
    return j


def pretty(v, col):
    if isinstance(v, str):
        return v
    if missing(v):
        return 'NaN' if 'NaN' not in col else 'numpy.nan'
    return v


def ensure_keys(got, want, what):
    got, want = list(got), list(want)
    ok = len(got) == len(want)
    for a, b in zip(got, want):
        if isinstance(b, tuple):
            ok = ok and isinstance(a, tuple) and len(a) == len(b) and all(
                type(x) is not float or not x.is_integer() for x in a)
            ok = ok and all(same(x, y) for x, y in zip(a, b))
        else:
            ok = ok and not isinstance(a, tuple) and same(a, b)
    ensure(ok, what, ': keys', got, 'expected', want)


def check_group(case, ctx):
    """
    one table grouped by one to three features; non-trivial = more than one
    group and a group with more than one point
    """
    t = Table.of(case)
    obj = stirred(build(case, case['type']), case['stir'])
    if case['view']:
        obj = obj.view()
    cols = t.cols()
    by = [spell(t, j, h) for j, h in zip(case['by'], case['hows'])]
    if case['alone']:
        by = by[0]
    groups = {}
    for i in range(t.np):
        key = tuple(pretty(cols[j][i], cols[j]) for j in case['by'])
        groups.setdefault(key[0] if case['alone'] else key, []).append(i)
    before = snapshot(obj)
    what = 'groupByFeature(%r) of %s %r' % (by, case['type'], t)
    got = obj.groupByFeature(by, useLog=False)
    ensure_same_snapshot(before, obj, what + ': the object')
    ensure_keys(got, groups, what)
    rest = t.drop('feature', case['by'])
    for key, idx in groups.items():
        part = got[key]
        want = rest.take('point', idx)
        ensure_table(part, want, what + ' group %r' % (key,),
                     rtype=case['type'])
        ensure_consistent(part, what + ' group %r' % (key,))
    counts = obj.groupByFeature(by, countUniqueValueOnly=True, useLog=False)
    ensure_keys(counts, groups, what + ' counts')
    for key, idx in groups.items():
        ensure(counts[key] == len(idx), what, ': count of', key,
               counts[key], 'expected', len(idx))
    if any(len(x.points) == 0 for x in got.values()):
        raise Violation(what + ': empty group')
    # the groups are objects of their own
    key, idx = list(groups.items())[0]
    if rest.nf:
        part = got[key]
        part.points.extract(0, useLog=False)
        ensure_same_snapshot(before, obj, what + ': after extracting from '
                             'a group, the object')
    ctx.label(case['type'], '%d features' % len(case['by']),
              '%d groups' % min(len(groups), 4))
    ctx.nontrivial(len(groups) > 1 and max(map(len, groups.values())) > 1)


def stat(name, vals):
    num = [v for v in vals if not missing(v)]
    if name == 'max':
        return max(num) if num else nan
    if name == 'min':
        return min(num) if num else nan
    if name == 'sum':
        return sum(num)
    if name == 'mean':
        return sum(num) / len(num) if num else nan
    if name == 'unique count':
        return len(set(num))
    if name == 'count':
        return len(num)
    if name == 'proportion missing':
        return (len(vals) - len(num)) / len(vals)
    if name == 'proportion zero':
        return sum(v == 0 for v in num) / len(vals)
    if name == 'median':
        num.sort()
        m = len(num) // 2
        return nan if not num else (num[m] if len(num) % 2 else
                                    (num[m - 1] + num[m]) / 2)
    raise KeyError(name)


METHOD = {'max': 'max', 'min': 'min', 'sum': 'sum', 'mean': 'mean',
          'unique count': 'uniqueCount', 'count': 'count',
          'proportion missing': 'proportionMissing',
          'proportion zero': 'proportionZero', 'median': 'median'}


@st.composite
def calculating(draw):
    t = draw(grouped(kinds=('int', 'float', 'nan', 'bool'), min_f=2))
    for r in t['rows']:
        for j, v in enumerate(r):
            if isinstance(v, bool):
                r[j] = int(v)
            elif isinstance(v, float) and v in (inf, -inf):
                r[j] = 3.0
    by = draw(st.integers(0, t['f'] - 1))
    t.update(by=by, how=draw(st.integers(0, 2)),
             stat=draw(st.sampled_from(sorted(METHOD))),
             axis=draw(st.booleans()), upper=draw(st.booleans()))
    return t


def check_calculate(case, ctx):
    """
    one statistic computed for the groups of a numeric table, through
    groupByFeature or the features' statistic methods; non-trivial = more
    than one group
    """
    t = Table.of(case)
    obj = stirred(build(case, case['type']), case['stir'])
    by = spell(t, case['by'], case['how'])
    name = case['stat']
    cols = t.cols()
    groups = {}
    for i in range(t.np):
        key = pretty(cols[case['by']][i], cols[case['by']])
        groups.setdefault(key, []).append(i)
    what = 'statistic %r grouped by %r of %s %r' % (name, by, case['type'], t)
    before = snapshot(obj)
    if case['axis'] and name != 'count':
        got = getattr(obj.features, METHOD[name])(groupByFeature=by)
    else:
        got = obj.groupByFeature(by, calculate=name.title() if case['upper']
                                 else name, useLog=False)
    ensure_same_snapshot(before, obj, what + ': the object')
    ensure_keys(got, groups, what)
    rest = t.drop('feature', [case['by']])
    for key, idx in groups.items():
        part = rest.take('point', idx)
        want = [stat(name, c) for c in part.cols()]
        w = '%s group %r' % (what, key)
        ensure((len(got[key].points), len(got[key].features)) ==
               (1, part.nf), w, ': shape', got[key].shape)
        vals = got[key].copy('pythonlist')[0]
        ensure(all(same(a, b, 1e-9) for a, b in zip(vals, want)), w, ':',
               vals, 'expected', want)
        ensure(got[key].features.getNames() == part.fn, w, ': names',
               got[key].features.getNames(), 'expected', part.fn)
    ctx.label(name, case['type'])
    ctx.nontrivial(len(groups) > 1)


def equal(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


@st.composite
def repeating(draw):
    t = draw(grouped())
    t['axis'] = draw(st.sampled_from(['point', 'feature']))
    t['view'] = draw(st.integers(0, 3)) == 0
    # some points and features are copies of others
    p, f = len(t['rows']), t['f']
    for _ in range(draw(st.integers(0, 3))):
        a, b = draw(st.integers(0, p - 1)), draw(st.integers(0, p - 1))
        t['rows'][a] = list(t['rows'][b])
    return t


def mixes(vecs):
    """True and 1, or 1 and '1', in the same place: equality is unclear."""
    for x in zip(*vecs):
        kinds = set('b' if isinstance(v, bool) else 's' if isinstance(
            v, str) else 'n' for v in x if not missing(v))
        if len(kinds) > 1:
            return True
    return False


def check_unique(case, ctx):
    """
    unique points or features of one table; non-trivial = some are dropped
    and some are kept
    """
    t = Table.of(case)
    obj = stirred(build(case, case['type']), case['stir'])
    if case['view']:
        obj = obj.view()
    vecs = t.along(case['axis']).rows
    if mixes(vecs) or mixes(list(zip(*vecs))):
        ctx.label('mixed kinds')
        if any(isinstance(v, bool) for r in vecs for v in r):
            return
    keep = [i for i, v in enumerate(vecs)
            if not any(equal(v, w) for w in vecs[:i])]
    want = t.take(case['axis'], keep)
    before = snapshot(obj)
    what = 'unique %ss of %s %r' % (case['axis'], case['type'], t)
    got = axis_of(obj, case['axis']).unique()
    ensure_same_snapshot(before, obj, what + ': the object')
    ensure_table(got, want, what, rtype=case['type'])
    ensure_consistent(got, what)
    ctx.label(case['type'], case['axis'], 'dropped %d' % min(
        len(vecs) - len(keep), 3))
    ctx.nontrivial(1 < len(keep) < len(vecs))


@st.composite
def counting(draw):
    t = draw(grouped())
    p, f = len(t['rows']), t['f']
    for n, axis in ((p, 'points'), (f, 'features')):
        how = draw(st.integers(0, 2))
        if how == 0:
            t[axis] = None
        elif how == 1:
            t[axis] = [draw(st.integers(0, n - 1))]
        else:
            t[axis] = list(draw(st.permutations(range(n))))[
                :draw(st.integers(1, n))]
        t[axis + 'one'] = how == 1 and draw(st.booleans())
        t[axis + 'how'] = draw(st.integers(0, 2))
    t['view'] = draw(st.integers(0, 3)) == 0
    return t


def check_count(case, ctx):
    """
    occurrences of each element in a subset of a table, and the number of
    unique values of each point and feature; non-trivial = at least two
    elements, one of them occurring more than once
    """
    t = Table.of(case)
    obj = stirred(build(case, case['type']), case['stir'])
    if case['view']:
        obj = obj.view()
    args, sel = {}, {}
    for axis, names, n in (('points', t.pn, t.np), ('features', t.fn, t.nf)):
        if case[axis] is None:
            sel[axis] = range(n)
            continue
        sel[axis] = case[axis]
        ids = [names[i] if case[axis + 'how'] == 1 and names[i] is not None
               else i - n if case[axis + 'how'] == 2 else i
               for i in case[axis]]
        args[axis] = ids[0] if case[axis + 'one'] else ids
    want = []
    for i in sel['points']:
        for j in sel['features']:
            for k in want:
                if same(k[0], t.rows[i][j]):
                    k[1] += 1
                    break
            else:
                want.append([t.rows[i][j], 1])
    before = snapshot(obj)
    what = 'countUniqueElements(%r) of %s %r' % (args, case['type'], t)
    got = obj.countUniqueElements(**args)
    ensure_same_snapshot(before, obj, what + ': the object')
    ensure(isinstance(got, dict), what, got)
    ok = len(got) == len(want)
    for k, n in want:
        hits = [c for g, c in got.items() if same(g, k)]
        ok = ok and hits == [n]
    ensure(ok, what, ':', got, 'expected', want)
    for axis, vecs in (('point', t.rows), ('feature', t.cols())):
        if any(isinstance(v, bool) for r in t.rows for v in r) and mixes(
                [[v] for r in t.rows for v in r]):
            break
        wantn = [len(set(v for v in vec if not missing(v))) for vec in vecs]
        each = [nimble.calculate.uniqueCount(v) for v in axis_of(obj, axis)]
        ensure(each == wantn, 'uniqueCount of each', axis, 'of', case['type'],
               t, ':', each, 'expected', wantn)
        tot = axis_of(obj, axis).uniqueCount()
        flat = [v for r in tot.copy('pythonlist') for v in r]
        ensure(flat == wantn, axis, 'uniqueCount of', case['type'], t, ':',
               flat, 'expected', wantn)
    ctx.label(case['type'], 'subset' if args else 'all')
    ctx.nontrivial(len(want) > 1 and any(n > 1 for _, n in want))


MAPPERS = ('first', 'pairs', 'const', 'none', 'elements')
REDUCERS = ('sum', 'len', 'first', 'last', 'drop', 'max')


@st.composite
def reducing(draw):
    t = draw(grouped(kinds=('int', 'float', 'nan')))
    for r in t['rows']:
        for j, v in enumerate(r):
            if v in (inf, -inf):
                r[j] = 7.0
    t['mapper'] = draw(st.sampled_from(MAPPERS))
    t['reducer'] = draw(st.sampled_from(REDUCERS))
    return t


def fix(v):
    return -99 if missing(v) else v


def mapper(kind):
    def first(p):
        return [(fix(p[0]), fix(p[len(p) - 1]))]

    def pairs(p):
        return [(fix(p[i]), fix(p[i + 1])) for i in range(len(p) - 1)]

    def const(p):
        return [(1, fix(x)) for x in p]

    def none(p):
        return [] if fix(p[0]) <= 1 else [(fix(p[0]), 2), (5, 3)]

    def elements(p):
        return [(fix(x), i) for i, x in enumerate(p)]
    return locals()[kind]


def reducer(kind):
    def total(k, vs):
        return (k, sum(vs))

    def length(k, vs):
        return (k, len(vs))

    def first(k, vs):
        return (k, vs[0])

    def last(k, vs):
        return (-k, vs[-1])

    def drop(k, vs):
        return None if len(vs) < 2 else (k, vs[1])

    def biggest(k, vs):
        return (max(vs), k)
    return {'sum': total, 'len': length, 'first': first, 'last': last,
            'drop': drop, 'max': biggest}[kind]


def check_mapreduce(case, ctx):
    """
    mapReduce of one table's points; non-trivial = at least one result made
    of more than one value
    """
    t = Table.of(case)
    obj = stirred(build(case, case['type']), case['stir'])
    m, r = mapper(case['mapper']), reducer(case['reducer'])
    vals = {}
    for row in t.rows:
        for k, v in m(row):
            vals.setdefault(k, []).append(v)
    res = [r(k, vs) for k, vs in vals.items()]
    rows = [list(x) for x in res if x is not None]
    want = Table(rows, None, None, 2 if rows else 0)
    before = snapshot(obj)
    what = 'mapReduce(%s, %s) of %s %r' % (case['mapper'], case['reducer'],
                                           case['type'], t)
    got = obj.points.mapReduce(m, r, useLog=False)
    ensure_same_snapshot(before, obj, what + ': the object')
    if rows:
        ensure_table(got, want, what, rtype=case['type'])
    else:
        ensure(len(got.points) == 0, what, got.copy('pythonlist'))
    ctx.label(case['type'], case['mapper'], case['reducer'])
    ctx.nontrivial(bool(rows) and any(len(v) > 1 for v in vals.values()))


TESTS = [
    Test('group', grouping(), check_group, quick=6000),
    Test('calculate', calculating(), check_calculate, quick=4000),
    Test('unique', repeating(), check_unique, quick=6000),
    Test('count', counting(), check_count, quick=4000),
    Test('mapreduce', reducing(), check_mapreduce, quick=3000),
]
