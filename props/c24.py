"""C24: built-in learners compute their documented result."""
import numpy as np
import nimble
from hypothesis import strategies as st

from lib.core import Test, Violation, ensure, missing, same
from lib.data import (TYPES, Table, build_table, ensure_consistent,
                      ensure_same_snapshot, nan, rows_of, snapshot, stirred)

N = nimble.exceptions
pick = st.sampled_from


def rows_st(n, f, num):
    return st.lists(st.lists(num, min_size=f, max_size=f), min_size=n,
                    max_size=n)


numbers = pick([st.integers(-3, 4), st.integers(-9, 9),
                st.integers(-16, 16).map(lambda k: k / 4)])


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


# ---------------------------------------------------------------------- KNN
@st.composite
def knns(draw):
    n, m, f = (draw(st.integers(1, 9)), draw(st.integers(1, 5)),
               draw(st.integers(1, 3)))
    num = draw(numbers)
    labs = draw(pick([[0, 1], [3, 1, 2], ['a', 'b', 'c'], ['x', 'y'],
                      [1.5, 0.5], [-1, 7]]))
    return {'x': draw(rows_st(n, f, num)), 'test': draw(rows_st(m, f, num)),
            'y': draw(st.lists(pick(labs), min_size=n, max_size=n)),
            'offset': draw(pick([0, 0, 0, 1000, 10**8])),
            'k': draw(st.one_of(st.none(), st.integers(1, 6))),
            'types': [draw(pick(TYPES)) for _ in range(3)],
            'names': draw(st.booleans()), 'stir': draw(st.integers(0, 7)),
            'embed': draw(st.booleans()),
            'change': draw(st.booleans())}


def neighbours(x, point, k):
    """
    The k nearest, and whether these and their order are determined. Exact:
    all of the values are dyadic.
    """
    d = [sum((a - b) ** 2 for a, b in zip(r, point)) for r in x]
    order = sorted(range(len(x)), key=lambda i: d[i])
    return order[:k], d, order


def vote(x, y, point, k):
    """The set of labels that could be meant, and the votes if determined."""
    near_, d, order = neighbours(x, point, k)
    if len(order) > k and d[order[k - 1]] == d[order[k]] and len(
            {y[i] for i in order if d[i] == d[order[k]]}) > 1:
        return None, None
    votes = {}
    for i in near_:
        votes[y[i]] = votes.get(y[i], 0) + 1
    top = max(votes.values())
    best = [lab for lab in votes if votes[lab] == top]
    if len(best) > 1:
        first = min(d[i] for i in near_ if y[i] in best)
        best = [lab for lab in best
                if any(d[i] == first and y[i] == lab for i in near_)]
    return best, votes


def check_knn(case, ctx):
    """
    majority of the nearest, the nearest label when tied;
    non-trivial = several labels and k > 1
    """
    off = case['offset']
    x = [[v + off for v in r] for r in case['x']]
    test = [[v + off for v in r] for r in case['test']]
    y, k = case['y'], case['k'] or 5
    tx, ty, tt = case['types']
    if ty == 'Sparse' and isinstance(y[0], str) or case['embed'] \
            and isinstance(y[0], str) and tx == 'Sparse':
        ty, tx = 'Matrix', 'Matrix'
    if tt == 'Sparse' and isinstance(y[0], str):
        tt = 'DataFrame'    # the predictions would have this type
    f = len(x[0])
    fn = ['f%d' % j for j in range(f)] if case['names'] else None
    xo = stirred(build_table(Table(x, None, fn, f), tx), case['stir'])
    yo = build_table(Table([[v] for v in y], None,
                           ['label'] if case['names'] else None, 1), ty)
    to = stirred(build_table(Table(test, ['t%d' % i for i in
                                          range(len(test))], fn, f), tt),
                 case['stir'] // 2)
    lab = yo
    if case['embed']:
        xo.features.append(yo, useLog=False)
        lab = f
    kw = {} if case['k'] is None else {'k': k}
    what = 'KNNClassifier(%r) of %r labelled %r applied to %r' % (
        kw, x, y, test)
    before = [snapshot(xo), snapshot(yo), snapshot(to)]
    tl = nimble.train('nimble.KNNClassifier', xo, lab, useLog=False, **kw)
    for s, o in zip(before, (xo, yo, to)):
        ensure_same_snapshot(s, o, what)
    if case['change']:
        # the learner was made of the data as it was
        xo.features.fillMatching(3, lambda v: True, features=0,
                                 useLog=False)
        if len(yo.points) > 1:
            yo.points.sort(by=lambda p: -hash(p[0]) % 97, useLog=False)
        yo.features.fillMatching(y[0], lambda v: True, useLog=False)
    out = tl.apply(to, useLog=False)
    ensure_consistent(out, what)
    ensure(out.shape == (len(test), 1), what, 'has shape', out.shape)
    ensure(out.points.getNames() == to.points.getNames(), what,
           'has point names', out.points.getNames())
    if case['names']:
        ensure(out.features.getNames() == ['label'], what, 'named',
               out.features.getNames())
    scores = tl.getScores(to)

    labels = sorted(set(y))
    hard = False
    for i, p in enumerate(test):
        allowed, votes = vote(x, y, p, k)
        if allowed is None:
            ctx.label('boundary tie')
            continue
        hard = hard or len(votes) > 1
        ensure(any(same(out[i, 0], a) for a in allowed), what, 'is',
               out[i, 0], 'for', p, 'expected', allowed, votes)
        got = [scores[i, j] for j in range(len(labels))]
        ensure(got == [votes.get(a, 0) for a in labels], what, 'scores',
               got, 'votes', votes)
    if len(labels) > 1:
        allo = tl.apply(to, scoreMode='allScores', useLog=False)
        got = allo.features.getNames()
        where = [[j for j, v in enumerate(labels) if str(v) == nme
                  or not isinstance(v, str) and float(nme) == v]
                 for nme in got]
        ensure(sorted(where) == [[j] for j in range(len(labels))], what,
               'all scores of', got, 'labels', labels)
        besto = tl.apply(to, scoreMode='bestScore', useLog=False)
        for i, p in enumerate(test):
            for j, nme in enumerate(got):
                at = where[j][0]
                ensure(allo[i, j] == scores[i, at], what, 'score of', nme,
                       'is', allo[i, j], 'not', scores[i, at])
            lab_, sc = besto[i, 0], besto[i, 1]
            row = [scores[i, j] for j in range(len(labels))]
            at = [j for j, v in enumerate(labels) if same(v, lab_)]
            ensure(len(at) == 1 and sc == row[at[0]] == max(row), what,
                   'best score', lab_, sc, 'of', dict(zip(labels, row)))
    ctx.label('labels', type(y[0]).__name__, 'offset', off)
    if hard and k > 1:
        ctx.nontrivial()


# ------------------------------------------------------------------ regression
@st.composite
def regressions(draw):
    f = draw(st.integers(1, 4))
    n, m, q = (draw(st.integers(1, 9)), draw(st.integers(1, 5)),
               draw(st.integers(1, 3)))
    num = draw(numbers)
    return {'learner': draw(pick(['RidgeRegression', 'RidgeRegression',
                                  'MultiOutputRidgeRegression',
                                  'MultiOutputLinearRegression'])),
            'x': draw(rows_st(n, f, num)), 'test': draw(rows_st(m, f, num)),
            'y': draw(rows_st(n, q, num)),
            'lamb': draw(st.one_of(st.none(), pick([0, 0.25, 1, 2, 10]))),
            'types': [draw(pick(TYPES)) for _ in range(3)],
            'names': draw(st.booleans()), 'stir': draw(st.integers(0, 7)),
            'embed': draw(st.booleans())}


def check_regression(case, ctx):
    """
    the weights are a minimum of the penalised squared error;
    non-trivial = no exact fit
    """
    x, y, test = case['x'], case['y'], case['test']
    n, f, q = len(x), len(x[0]), len(y[0])
    learner = case['learner']
    linear = learner == 'MultiOutputLinearRegression'
    kw = {}
    lamb = 0
    if not linear and case['lamb'] is not None:
        kw['lamb'] = lamb = case['lamb']
    A = np.array(x, dtype=float)
    Y = np.array(y, dtype=float)
    if not linear:
        G = A.T @ A + lamb * np.eye(f)
        if np.linalg.matrix_rank(G) < f or np.linalg.cond(G) > 1e7:
            ctx.excluded('singular')
            return
    tx, ty, tt = case['types']
    fn = ['f%d' % j for j in range(f)] if case['names'] else None
    yn = ['y%d' % j for j in range(q)] if case['names'] else None
    xo = stirred(build_table(Table(x, None, fn, f), tx), case['stir'])
    yo = build_table(Table(y, None, yn, q), ty)
    to = build_table(Table(test, ['t%d' % i for i in range(len(test))], fn,
                           f), tt)
    eye = build_table(Table([[int(i == j) for j in range(f)]
                             for i in range(f)], None, fn, f), tt)
    zero = build_table(Table([[0] * f], None, fn, f), tt)
    lab = yo
    if case['embed'] and q == 1:
        xo.features.append(yo, useLog=False)
        lab = f
    what = '%s(%r) of %r labelled %r' % (learner, kw, x, y)
    before = [snapshot(xo), snapshot(yo)]
    tl = nimble.train('nimble.' + learner, xo, lab, useLog=False, **kw)
    for s, o in zip(before, (xo, yo)):
        ensure_same_snapshot(s, o, what)
    out = tl.apply(to, useLog=False)
    ensure_consistent(out, what)
    ensure(out.shape == (len(test), q), what, 'gives shape', out.shape)
    ensure(out.points.getNames() == to.points.getNames(), what,
           'has point names', out.points.getNames())
    if case['names']:
        ensure(out.features.getNames() == yn, what, 'named',
               out.features.getNames())
    b = np.array(rows_of(tl.apply(zero, useLog=False)), dtype=float)
    w = np.array(rows_of(tl.apply(eye, useLog=False)), dtype=float) - b
    if not linear:
        ensure(np.all(np.abs(b) < 1e-9), what, 'has an intercept', b)
        want = np.linalg.solve(G, A.T @ Y)
        ensure(np.allclose(w, want, atol=1e-6), what, 'weights', w.tolist(),
               'expected', want.tolist())
    res = A @ w + b - Y
    grad = A.T @ res + lamb * w
    scale = 1 + np.abs(A).sum() * (1 + np.abs(Y).max())
    ensure(np.all(np.abs(grad) < 1e-8 * scale), what,
           'is not a minimum, weights', w.tolist(), b.tolist(), 'gradient',
           grad.tolist())
    if linear:
        ensure(np.all(np.abs(res.sum(axis=0)) < 1e-8 * scale), what,
               'intercept is not a minimum', b.tolist())
    pred = np.array(test, dtype=float) @ w + b
    ensure(np.allclose(np.array(rows_of(out), dtype=float), pred,
                       atol=1e-7 * scale), what, 'for', test, 'is',
           rows_of(out), 'expected', pred.tolist())
    ctx.label(learner, 'outputs', q)
    if np.any(np.abs(res) > 1e-6):
        ctx.nontrivial()


# ------------------------------------------------------------------ imputation
@st.composite
def imputations(draw):
    n, f = draw(st.integers(2, 8)), draw(st.integers(2, 4))
    rows = draw(rows_st(n, f, draw(numbers)))
    gap = st.tuples(st.integers(0, n - 1), st.integers(0, f - 1))
    return {'x': rows, 'gaps': draw(st.lists(gap, min_size=1, max_size=6)),
            'k': draw(st.integers(1, 4)),
            'mode': draw(pick(['classification', 'regression'])),
            'type': draw(pick(TYPES)), 'stir': draw(st.integers(0, 7)),
            'names': draw(st.booleans()),
            'features': draw(st.one_of(st.none(), st.none(), st.lists(
                st.integers(0, f - 1), min_size=1, max_size=2,
                unique=True))),
            'points': draw(st.one_of(st.none(), st.none(), st.lists(
                st.integers(0, n - 1), min_size=1, max_size=3,
                unique=True))),
            'how': draw(pick(['missing', 'missing', 'value', 'other']))}


def impute(train, known_rows, row, j, k, mode):
    """
    The values that could fill feature j of the row, None when there are not
    enough points to learn from
    """
    keep = [c for c, v in enumerate(row) if not missing(v)]
    usable = [r for r in train
              if not any(missing(r[c]) for c in keep + [j])]
    if not keep or len(usable) < k:
        return None
    d = [sum((r[c] - row[c]) ** 2 for c in keep) for r in usable]
    order = sorted(range(len(usable)), key=lambda i: d[i])
    edge = d[order[k - 1]]
    sure = [usable[i][j] for i in order if d[i] < edge]
    maybe = [usable[i][j] for i in order if d[i] == edge]
    import itertools
    out = []
    for c in itertools.combinations(maybe, k - len(sure)):
        vals = sure + list(c)
        if mode == 'regression':
            out.append(sum(vals) / k)
        else:
            top = max(vals.count(v) for v in vals)
            out.extend(v for v in vals if vals.count(v) == top)
    return out


def check_imputation(case, ctx):
    """
    only the matching elements change, to what the nearest points give;
    non-trivial = several filled elements
    """
    x = [list(r) for r in case['x']]
    gaps = sorted(set(case['gaps']))
    mark = 77.5
    how = case['how']
    if case['mode'] == 'classification' and any(
            v % 1 for r in x for v in r):
        x = [[round(v) for v in r] for r in x]
    holes = [list(r) for r in x]
    shown = [list(r) for r in x]
    for i, j in gaps:
        holes[i][j] = nan
        shown[i][j] = mark if how == 'value' else nan
    n, f = len(x), len(x[0])
    fn = ['f%d' % j for j in range(f)] if case['names'] else None
    pn = ['p%d' % i for i in range(n)] if case['names'] else None
    what = 'KNNImputation k=%d %s of %r (%s)' % (
        case['k'], case['mode'], holes, how)
    want = {}
    for i, j in gaps:
        want[i, j] = impute(holes, None, holes[i], j, case['k'],
                            case['mode'])
    kw = {'k': case['k'], 'mode': case['mode'], 'useLog': False}
    if any(v is None for v in want.values()):
        ctx.excluded('too few points')
        return
    if how == 'other':
        # learn from x, fill in a single row of other data
        obj = stirred(build_table(Table(x, pn, fn, f), case['type']),
                      case['stir'])
        other = [holes[i] for i in sorted({i for i, _ in gaps})]
        index = sorted({i for i, _ in gaps})
        oobj = build_table(Table(other, None, fn, f), case['type'])
        what += ' learned from %r' % x
        if len(x) < case['k']:
            return
        got = rows_of(nimble.trainAndApply('nimble.KNNImputation', obj,
                                           testX=oobj, **kw))
        for r, i in zip(got, index):
            for j in range(f):
                if (i, j) in want:
                    ok = impute(x, None, holes[i], j, case['k'],
                                case['mode'])
                    ensure(any(near(r[j], v) for v in ok), what, 'gave',
                           r[j], 'at', (i, j), 'expected', ok)
                else:
                    ensure(same(r[j], x[i][j]), what, 'changed', (i, j))
        ctx.label('other data')
        ctx.nontrivial()
        return
    obj = stirred(build_table(Table(shown, pn, fn, f), case['type']),
                  case['stir'])
    if case['features'] is not None:
        kw['features'] = case['features']
    if case['points'] is not None:
        kw['points'] = case['points']
    match = nimble.match.missing if how == 'missing' else mark
    nimble.fillMatching('nimble.KNNImputation', match, obj, **kw)
    ensure_consistent(obj, what)
    got = rows_of(obj)
    filled = 0
    for i in range(n):
        for j in range(f):
            limited = (case['features'] is not None
                       and j not in case['features']
                       or case['points'] is not None
                       and i not in case['points'])
            if (i, j) in want and not limited:
                filled += 1
                ensure(any(near(got[i][j], v) for v in want[i, j]), what,
                       'gave', got[i][j], 'at', (i, j), 'expected',
                       want[i, j])
            else:
                ensure(same(got[i][j], shown[i][j]), what, 'changed',
                       (i, j), 'to', got[i][j])
    if case['names']:
        ensure(obj.points.getNames() == pn and obj.features.getNames() == fn,
               what, 'names became', obj.points.getNames(),
               obj.features.getNames())
    ctx.label(case['mode'], 'filled', filled)
    if filled > 1:
        ctx.nontrivial()


TESTS = [
    Test('knn', knns(), check_knn, quick=2500),
    Test('regression', regressions(), check_regression, quick=2000),
    Test('imputation', imputations(), check_imputation, quick=1200),
]
