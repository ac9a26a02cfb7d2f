"""C19: normalization applies one fitted transform to all arguments."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import nimble
from lib.core import Test, Violation, ensure, missing, same
from lib.data import (TYPES, Table, build, ensure_consistent,
                      ensure_same_snapshot, ensure_table, ident, nan,
                      names, snapshot, sparse_ok, stirred, subset, tables)

N = nimble.exceptions
calc = nimble.calculate


# ------------------------------------------------------------- definitions
# each gives, from the known values of the fitted vector, the function that is
# applied to every known value; None where the definition gives nothing

def fit_mean(vals):
    m = sum(vals) / len(vals)
    return lambda v: v - m


def fit_z(vals):
    m = sum(vals) / len(vals)
    var = sum((v - m) ** 2 for v in vals) / len(vals)
    if var == 0:
        return lambda v: v - m
    sd = math.sqrt(var)
    return lambda v: float(v - m) / sd


def fit_01(vals):
    lo, hi = min(vals), max(vals)
    if lo == hi:
        # the spread cannot be divided by: only equal values are defined
        return lambda v: 0 if v == lo else None
    return lambda v: (v - lo) / (hi - lo)


def fit_percentile(vals):
    n = len(vals)
    if n == 1:
        return lambda v: None
    order = sorted(vals)
    marks = {}
    for v in set(vals):
        at = [i for i, w in enumerate(order) if w == v]
        marks[v] = Fraction(sum(at), len(at)) / (n - 1)
    keys = sorted(marks)
    lo, hi = keys[0], keys[-1]

    def inside(v):
        if v in marks:
            return marks[v]
        a = max(w for w in keys if w < v)
        b = min(w for w in keys if w > v)
        return marks[a] + (marks[b] - marks[a]) * (v - a) / (b - a)

    def at(v, second):
        if second and v < lo:
            return 0
        if second and v > hi:
            return 1
        return inside(v)
    return at


FITS = {'meanNormalize': fit_mean,
        'meanStandardDeviationNormalize': fit_z,
        'range0to1Normalize': fit_01, 'percentileNormalize': fit_percentile}


def expected(name, col, col2):
    """
    The normalized columns (the second None without col2); a value is
    Ellipsis where nothing is defined. None when nothing at all is defined.
    """
    vals = [Fraction(float(v)) for v in col if not missing(v)]
    if not vals:
        return None
    if name == 'range0to1Normalize' and any(
            isinstance(v, bool) for v in list(col) + list(col2 or ())):
        # booleans cannot be subtracted
        return None
    f = FITS[name](vals)

    def run(c, second):
        ret = []
        for v in c:
            if missing(v):
                ret.append(nan)
                continue
            v = Fraction(float(v))
            r = f(v, second) if name == 'percentileNormalize' and \
                len(vals) > 1 else f(v)
            ret.append(Ellipsis if r is None else float(r))
        return ret
    return run(col, False), (None if col2 is None else run(col2, True))


def agree(got, want, what):
    ensure(len(got) == len(want), what, 'length', got, want)
    for g, w in zip(got, want):
        if w is Ellipsis:
            continue
        ensure(same(g, w, 1e-7), what, 'gave', got, 'not', want)


# ------------------------------------------------------------------- vectors

def number(extra=()):
    return st.one_of(st.integers(-4, 6), st.integers(0, 3),
                     st.integers(-8, 24).map(lambda k: k / 4), *extra)


@st.composite
def vector_cases(draw):
    miss = draw(st.sampled_from([(), (), (st.just(nan),)]))
    a = draw(st.lists(number(miss), min_size=1, max_size=8))
    how = draw(st.integers(0, 3))
    b = None
    if how:
        pool = st.one_of(number(miss), st.sampled_from(a))
        b = draw(st.lists(pool, min_size=1, max_size=6))
    return {'a': a, 'b': b, 'name': draw(st.sampled_from(sorted(FITS))),
            'flat': (draw(st.booleans()), draw(st.booleans())),
            'types': (draw(st.sampled_from(TYPES)),
                      draw(st.sampled_from(TYPES))),
            'stir': draw(st.integers(0, 7))}


def vec(vals, flat, rtype):
    return nimble.data([list(vals)] if flat else [[v] for v in vals],
                       returnType=rtype, useLog=False)


def flat_of(obj):
    return [v for r in obj.copy('pythonlist') for v in r]


def check_vector(case, ctx):
    """
    a normalization called with one or two vectors; non-trivial = different
    values, and a second vector with a value that the first does not have
    """
    a, b, name = case['a'], case['b'], case['name']
    want = expected(name, a, b)
    if want is None or (name == 'percentileNormalize'
                        and sum(not missing(v) for v in a) < 2):
        ctx.excluded('nothing to fit')
        return
    A = stirred(vec(a, case['flat'][0], case['types'][0]), case['stir'])
    snaps = [snapshot(A)]
    f = getattr(calc, name)
    what = '%s(%r, %r) of %s' % (name, a, b, case['types'])
    if b is None:
        g1, g2 = f(A), None
    else:
        B = vec(b, case['flat'][1], case['types'][1])
        snaps.append(snapshot(B))
        ret = f(A, B)
        ensure(isinstance(ret, tuple) and len(ret) == 2, what, 'not a pair')
        g1, g2 = ret
        ensure_same_snapshot(snaps[1], B, what + ' second')
        ensure(g2.shape == B.shape, what, 'shape', g2.shape)
        agree(flat_of(g2), want[1], what + ' second')
    ensure(g1.shape == A.shape, what, 'shape', g1.shape)
    agree(flat_of(g1), want[0], what)
    ensure_same_snapshot(snaps[0], A, what)
    ctx.label(name, case['types'][0], 'two' if b else 'one')
    if any(missing(v) for v in a):
        ctx.label('missing')
    ctx.nontrivial(len(set(a)) > 1 and b is not None
                   and any(v not in a for v in b))


# -------------------------------------------------------------------- tables

@st.composite
def table_cases(draw):
    f = draw(st.integers(1, 4))
    kinds = draw(st.sampled_from([('int',), ('float',), ('int', 'float'),
                                  ('int', 'float', 'nan', 'bool')]))
    t1 = draw(tables(1, 6, f, f, kinds=kinds))
    t2 = draw(tables(1, 5, f, f, kinds=kinds))
    how = draw(st.integers(0, 9))
    if how < 4:
        t2['fn'] = t1['fn']
    elif how < 6:
        t2['fn'] = None
    # other values, often some of the first
    take = draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5),
                                   st.integers(0, 5)), max_size=6))
    for i, j, k in take:
        t2['rows'][i % len(t2['rows'])][k % f] = \
            t1['rows'][j % len(t1['rows'])][k % f]
    if draw(st.integers(0, 12)) == 0:
        extra = draw(tables(1, 5, f + 1, f + 1, kinds=kinds))
        t2 = extra
    return {'t1': t1, 't2': t2,
            'types': (draw(st.sampled_from(TYPES)),
                      draw(st.sampled_from(TYPES))),
            'name': draw(st.sampled_from(sorted(FITS) + ['range', 'custom'])),
            'second': draw(st.sampled_from([True, True, False])),
            'picks': draw(st.one_of(st.none(), st.lists(
                st.integers(0, 9), min_size=1, max_size=3))),
            'hows': draw(st.lists(st.integers(0, 2), min_size=4,
                                  max_size=4)),
            'single': draw(st.booleans()),
            'ret': draw(st.integers(0, 3)),
            'k': draw(st.integers(0, 5)),
            'stir': draw(st.integers(0, 7))}


def custom(case, fail_at=None):
    """
    A user's normalization: (v - first known) * k, by the values of the first
    vector, returned in one of several forms.
    """
    calls = []

    def done(vals, ft):
        how = case['ret']
        if how == 0:
            return vals
        if how == 1:
            return np.array(vals, dtype=float)
        if how == 2:
            return nimble.data([[v] for v in vals], useLog=False)
        return tuple(vals)

    def run(a, b=None):
        calls.append(1)
        if fail_at == len(calls):
            raise RuntimeError('asked for')
        va = flat_of(a)
        base = custom_base(va)
        g = [custom_value(v, base, case['k']) for v in va]
        if b is None:
            return done(g, a)
        h = [custom_value(v, base, case['k']) for v in flat_of(b)]
        return done(g, a), done(h, b)
    return run


def custom_base(col):
    return next((v for v in col if not missing(v)), 1)


def custom_value(v, base, k):
    return nan if missing(v) else float(v) * k - float(base)


def column(name, case, c1, c2):
    if name == 'custom':
        base = custom_base(c1)
        f = lambda c: [custom_value(v, base, case['k']) for v in c]
        return f(c1), (None if c2 is None else f(c2))
    if name == 'range':
        vals = [float(v) for v in c1 if not missing(v)]
        if any(isinstance(v, bool) for v in list(c1) + list(c2 or ())):
            return None
        if not vals or min(vals) == max(vals):
            return None
        lo, hi = min(vals), max(vals)
        s, e = -case['k'], case['k'] + 1.5
        f = lambda c: [nan if missing(v) else
                       s + (e - s) * (float(v) - lo) / (hi - lo) for v in c]
        return f(c1), (None if c2 is None else f(c2))
    if name == 'percentileNormalize' \
            and sum(not missing(v) for v in c1) < 2:
        return None
    return expected(name, c1, c2)


def function_of(name, case):
    if name == 'custom':
        return custom(case)
    if name == 'range':
        from nimble.calculate.normalize import rangeNormalize
        return lambda a, b=None: rangeNormalize(
            a, b, start=-case['k'], end=case['k'] + 1.5)
    return getattr(calc, name)


def check_table(case, ctx):
    """
    features.normalize with and without a second object, for all or chosen
    features; non-trivial = a second object and at least two features, one
    with more than one value
    """
    t1, t2 = Table.of(case['t1']), Table.of(case['t2'])
    name = case['name']
    types = case['types']
    for t, rt in ((t1, types[0]), (t2, types[1])):
        if rt == 'Sparse' and not sparse_ok(t.rows):
            ctx.excluded('not for Sparse (known finding)')
            return
    picks = case['picks']
    chosen = list(range(t1.nf)) if picks is None else subset(t1.nf, picks)
    o1 = stirred(build(case['t1'], types[0]), case['stir'])
    o2 = build(case['t2'], types[1]) if case['second'] else None
    before = snapshot(o1), (snapshot(o2) if o2 is not None else None)
    arg = None
    if picks is not None:
        arg = [ident(t1.fn, i, h, t1.nf)
               for i, h in zip(chosen, case['hows'] * 3)]
        if len(arg) == 1 and case['single']:
            arg = arg[0]
    what = '%s.normalize(%s, %s, features=%r) of %r and %r' % (
        types[0], name, types[1], arg, t1, t2 if case['second'] else None)
    f = function_of(name, case)
    refuse = case['second'] and (
        t1.nf != t2.nf or (any(t1.fn) and any(t2.fn) and t1.fn != t2.fn))
    if refuse:
        try:
            o1.features.normalize(f, applyResultTo=o2, features=arg,
                                  useLog=False)
        except N.InvalidArgumentValue:
            pass
        else:
            if t1.nf != t2.nf or all(t1.fn) and all(t2.fn):
                raise Violation(what + ' was not refused')
            ctx.excluded('partial names')
            return
        ensure_same_snapshot(before[0], o1, what)
        ensure_same_snapshot(before[1], o2, what)
        ctx.label('refused')
        ctx.nontrivial(True)
        return
    c1, c2 = t1.cols(), t2.cols()
    new1 = [list(r) for r in t1.rows]
    new2 = [list(r) for r in t2.rows]
    holes = []
    for j in chosen:
        w = column(name, case, c1[j], c2[j] if case['second'] else None)
        if w is None:
            ctx.excluded('nothing to fit')
            return
        for i, v in enumerate(w[0]):
            new1[i][j] = v
        if case['second']:
            for i, v in enumerate(w[1]):
                new2[i][j] = v
                if v is Ellipsis:
                    holes.append((i, j))
    if types[0] == 'Sparse' and not sparse_ok(new1) \
            or types[1] == 'Sparse' and not sparse_ok(new2):
        ctx.excluded('not for Sparse (known finding)')
        return
    if case['second']:
        ret = o1.features.normalize(f, applyResultTo=o2, features=arg,
                                    useLog=False)
    else:
        ret = o1.features.normalize(f, features=arg, useLog=False)
    ensure(ret is None, what, 'returned', ret)
    ensure_table(o1, Table(new1, t1.pn, t1.fn, t1.nf), what, tol=1e-7)
    ensure_consistent(o1, what)
    if case['second']:
        for i, j in holes:
            new2[i][j] = o2[i, j]
        ensure_table(o2, Table(new2, t2.pn, t2.fn, t2.nf),
                     what + ' second', tol=1e-7)
        ensure_consistent(o2, what + ' second')
    ctx.label(name, types[0], 'features' if arg is not None else 'all')
    ctx.nontrivial(case['second'] and t1.nf > 1
                   and any(len(set(map(str, c))) > 1 for c in c1))


# ----------------------------------------------------------------- relations

@st.composite
def relations(draw):
    n = draw(st.integers(3, 9))
    f = draw(st.integers(1, 3))
    rows = draw(st.lists(st.lists(st.integers(-20, 60), min_size=f,
                                  max_size=f), min_size=n, max_size=n))
    return {'rows': rows, 'name': draw(st.sampled_from(sorted(FITS))),
            'type': draw(st.sampled_from(TYPES)),
            'type2': draw(st.sampled_from(TYPES)),
            'perm': draw(st.permutations(range(n))),
            'cut': draw(st.integers(1, n - 1)),
            'scale': draw(st.sampled_from([2, 4, 0.5])),
            'shift': draw(st.integers(-9, 9)),
            'rel': draw(st.sampled_from(['self', 'split', 'permute',
                                         'affine', 'leak', 'columns']))}


def norm_of(rows, rtype, name, second=None, rtype2=None, **kw):
    o = nimble.data(rows, returnType=rtype, useLog=False)
    f = getattr(calc, name)
    if second is None:
        o.features.normalize(f, useLog=False, **kw)
        return o.copy('pythonlist'), None
    s = nimble.data(second, returnType=rtype2, useLog=False)
    o.features.normalize(f, applyResultTo=s, useLog=False, **kw)
    return o.copy('pythonlist'), s.copy('pythonlist')


def near(a, b):
    return np.allclose(np.array(a, dtype=float), np.array(b, dtype=float),
                       atol=1e-8, equal_nan=True)


def check_relation(case, ctx):
    """
    the second object fitted on equal data gets equal values; parts, order,
    scale and the second object's content make no difference; non-trivial =
    no constant feature
    """
    rows, name, rel = case['rows'], case['name'], case['rel']
    t, t2 = case['type'], case['type2']
    cols = list(zip(*rows))
    if any(len(set(c)) == 1 for c in cols):
        ctx.excluded('constant')
        return
    what = '%s of %r in %s: %s' % (name, rows, t, rel)
    base, _ = norm_of(rows, t, name)
    if rel == 'self':
        a, b = norm_of(rows, t, name, rows, t2)
        ensure(near(a, base), what, a, base)
        ensure(near(b, base), what, b, base)
    elif rel == 'split':
        # the parts of the second object do not depend on each other
        k = case['cut']
        _, whole = norm_of(rows, t, name, rows, t2)
        _, x = norm_of(rows, t, name, rows[:k], t2)
        _, y = norm_of(rows, t, name, rows[k:], t2)
        ensure(near(x + y, whole), what, x + y, whole)
    elif rel == 'permute':
        p = case['perm']
        got, _ = norm_of([rows[i] for i in p], t, name)
        ensure(near(got, [base[i] for i in p]), what, got, base)
    elif rel == 'affine':
        if name == 'meanNormalize':
            got, _ = norm_of([[v + case['shift'] for v in r] for r in rows],
                             t, name)
        else:
            got, _ = norm_of([[v * case['scale'] + case['shift'] for v in r]
                              for r in rows], t, name)
        ensure(near(got, base), what, got, base)
    elif rel == 'leak':
        other = [[v * 7 + 100 for v in r] for r in rows[:case['cut']]]
        a, _ = norm_of(rows, t, name, other, t2)
        ensure(near(a, base), what, 'the second object matters', a, base)
    else:
        # features are normalized each on their own
        for j, c in enumerate(cols):
            got, _ = norm_of([[v] for v in c], t, name)
            ensure(near(got, [[r[j]] for r in base]), what, j, got, base)
    ctx.label(rel, name)
    ctx.nontrivial(True)


# -------------------------------------------------------------------- failing

@st.composite
def failing(draw):
    f = draw(st.integers(2, 4))
    return {'t1': draw(tables(2, 4, f, f, kinds=('int', 'float'),
                              naming=False)),
            't2': draw(tables(2, 4, f, f, kinds=('int', 'float'),
                              naming=False)),
            'types': (draw(st.sampled_from(TYPES)),
                      draw(st.sampled_from(TYPES))),
            'second': draw(st.booleans()), 'ret': draw(st.integers(0, 3)),
            'k': draw(st.integers(1, 3)), 'at': draw(st.integers(1, f)),
            'bad': draw(st.sampled_from(['raise', 'short', 'pair']))}


def check_failing(case, ctx):
    """
    a function that fails, or returns too few values, at a later feature
    leaves both objects as they were; non-trivial = not at the first feature
    """
    o1 = build(case['t1'], case['types'][0])
    o2 = build(case['t2'], case['types'][1]) if case['second'] else None
    before = snapshot(o1), (snapshot(o2) if case['second'] else None)
    what = 'normalize with a function that fails at %d (%s) of %r' % (
        case['at'], case['bad'], case)
    if case['bad'] == 'raise':
        f = custom(case, fail_at=case['at'])
    else:
        good = custom(dict(case, ret=0))
        count = []

        def f(a, b=None):
            count.append(1)
            r = good(a) if b is None else good(a, b)
            if len(count) != case['at']:
                return r
            if b is None:
                return r[:-1]
            if case['bad'] == 'pair':
                return r[0], r[1] + [1]
            return r[0][:-1], r[1]
    try:
        if case['second']:
            o1.features.normalize(f, applyResultTo=o2, useLog=False)
        else:
            o1.features.normalize(f, useLog=False)
    except (RuntimeError, N.NimbleException):
        pass
    else:
        raise Violation(what + ' went through')
    ensure_same_snapshot(before[0], o1, what)
    if case['second']:
        ensure_same_snapshot(before[1], o2, what + ' second')
    ctx.label(case['bad'])
    ctx.nontrivial(case['at'] > 1)


TESTS = [Test('vector', vector_cases(), check_vector, quick=4000),
         Test('table', table_cases(), check_table, quick=4000),
         Test('relation', relations(), check_relation, quick=2000),
         Test('failing', failing(), check_failing, quick=800)]
